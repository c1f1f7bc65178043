//! Simulated runs of the two bulk tools (tables of results built by several threads, kept in a
//! CSV file that outlives crashes).
use crate::common::*;
use crate::gen::*;
use crate::model::*;
use crate::proc::*;
use crate::rng::Rng;
use crate::sess::stats;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// every schedule gives the complete, right, ordered table
    Order,
    /// errors never give a wrong table with exit status 0
    Errors,
    /// crash, then resume with -u
    Resume,
    /// without -u nothing existing is overwritten
    NoClobber,
    /// reported durations
    Time,
    /// bulk_performance_experiment: all of it
    Perf,
}
pub struct Bulk(pub Kind);

const OUT: &str = "out.csv";
pub const BULK_COLS: &[&str] = &[
    "label", "has_quorum_intersection", "top_tier_size", "mbs_min", "mbs_max", "mbs_mean", "mss_min", "mss_max", "mss_mean",
    "mq_min", "mq_max", "mq_mean", "orgs_top_tier_size", "orgs_mbs_min", "orgs_mbs_max", "orgs_mbs_mean", "orgs_mss_min",
    "orgs_mss_max", "orgs_mss_mean", "orgs_mq_min", "orgs_mq_max", "orgs_mq_mean", "isps_top_tier_size", "isps_mbs_min",
    "isps_mbs_max", "isps_mbs_mean", "isps_mss_min", "isps_mss_max", "isps_mss_mean", "isps_mq_min", "isps_mq_max",
    "isps_mq_mean", "ctries_top_tier_size", "ctries_mbs_min", "ctries_mbs_max", "ctries_mbs_mean", "ctries_mss_min",
    "ctries_mss_max", "ctries_mss_mean", "ctries_mq_min", "ctries_mq_max", "ctries_mq_mean", "standard_form_hash",
    "analysis_duration_mq", "analysis_duration_mbs", "analysis_duration_mss", "analysis_duration_total",
];
const PERF_COLS: &[&str] = &[
    "top_tier_size", "run", "mq_number", "mbs_number", "mss_number", "mq_mean", "mbs_mean", "mss_mean", "analysis_duration_mq",
    "analysis_duration_mbs", "analysis_duration_mss", "analysis_duration_hqi_after_mq", "analysis_duration_hqi_alt_check",
    "analysis_duration_total",
];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct In {
    label: String,
    nodes: String,
    orgs_file: Option<String>,
    fbas: MF,
    orgs: Vec<MOrg>,
    #[serde(default)]
    flat: Option<Flat>,
    /// per mille at which the stored nodes / organizations file is cut off; 1000 and above: whole
    cut_nodes: u64,
    cut_orgs: u64,
    missing: bool,
}

#[derive(Clone, Debug)]
enum Cell {
    S(String),
    N(f64),
    Dur,
}
/// What has to stand in a row.
#[derive(Clone, Debug)]
enum Want {
    Row(Vec<(&'static str, Cell)>),
    Kept(BTreeMap<String, String>),
    /// an input that cannot be analyzed
    Impossible,
}

// --------------------------------------------------------------------------------- reference rows
pub fn model_groups(kind: &str, f: &MF, orgs: &[MOrg]) -> Vec<(String, Vec<usize>)> {
    let n = f.n();
    let mut groups: Vec<(String, Vec<usize>)> = vec![];
    match kind {
        "org" => {
            for g in orgs {
                groups.push((g.name.clone(), g.v.iter().copied().filter(|&x| x < n).collect()));
            }
        }
        "isp" | "country" => {
            for (x, node) in f.nodes.iter().enumerate() {
                let raw = if kind == "isp" { &node.isp } else { &node.country };
                if let Some(raw) = raw {
                    let mut name: String = raw.chars().filter(|&c| c != ',').collect();
                    if name.ends_with('.') {
                        name.pop();
                    }
                    match groups.iter_mut().find(|(g, _)| *g == name) {
                        Some((_, v)) => v.push(x),
                        None => groups.push((name, vec![x])),
                    }
                }
            }
        }
        _ => {}
    }
    groups
}
/// Members of a group become the group's smallest member.
pub fn merge_set(groups: &[(String, Vec<usize>)], s: &Set) -> Set {
    s.iter()
        .map(|&x| match groups.iter().find(|(_, v)| v.contains(&x)) {
            Some((_, v)) => *v.iter().min().unwrap(),
            None => x,
        })
        .collect()
}
pub fn merge_sets(groups: &[(String, Vec<usize>)], sets: &[Set]) -> Vec<Set> {
    minimal_only(sets.iter().map(|s| merge_set(groups, s)).collect())
}
fn std_hash(f: &MF) -> String {
    use sha3::{Digest, Sha3_256};
    let fbas = fbas_analyzer::Fbas::from_json_str(&f.json());
    let s = fbas.to_standard_form().to_json_string();
    Sha3_256::digest(&s.into_bytes()).iter().map(|b| format!("{:02x}", b)).collect()
}
fn bulk_row(i: &In, t: &Truth) -> Vec<(&'static str, Cell)> {
    let mut v: Vec<(&'static str, Cell)> = vec![
        ("label", Cell::S(i.label.clone())),
        ("has_quorum_intersection", Cell::S(t.intersection.to_string())),
        ("top_tier_size", Cell::N(t.top_tier.len() as f64)),
    ];
    let mut put3 = |names: [&'static str; 3], sets: Option<&[Set]>| match sets {
        Some(s) => {
            let ((a, b, c), _) = stats(s);
            v.push((names[0], Cell::N(a as f64)));
            v.push((names[1], Cell::N(b as f64)));
            v.push((names[2], Cell::N(c)));
        }
        None => {
            for n in names {
                v.push((n, Cell::S(String::new())));
            }
        }
    };
    put3(["mbs_min", "mbs_max", "mbs_mean"], Some(&t.mbs));
    put3(["mss_min", "mss_max", "mss_mean"], Some(&t.mss));
    put3(["mq_min", "mq_max", "mq_mean"], Some(&t.mq));
    let og = i.orgs_file.as_ref().map(|_| model_groups("org", &i.fbas, &i.orgs));
    let some = |g: Vec<(String, Vec<usize>)>| if g.is_empty() { None } else { Some(g) };
    let ig = some(model_groups("isp", &i.fbas, &[]));
    let cg = some(model_groups("country", &i.fbas, &[]));
    let mut tops = vec![];
    macro_rules! grp {
        ($g:expr, $tt:literal, $b:expr, $s:expr, $q:expr) => {
            match &$g {
                Some(g) => {
                    tops.push(($tt, Cell::N(merge_set(g, &t.top_tier).len() as f64)));
                    put3($b, Some(&merge_sets(g, &t.mbs)));
                    put3($s, Some(&merge_sets(g, &t.mss)));
                    put3($q, Some(&merge_sets(g, &t.mq)));
                }
                None => {
                    tops.push(($tt, Cell::S(String::new())));
                    put3($b, None);
                    put3($s, None);
                    put3($q, None);
                }
            }
        };
    }
    grp!(og, "orgs_top_tier_size", ["orgs_mbs_min", "orgs_mbs_max", "orgs_mbs_mean"], ["orgs_mss_min", "orgs_mss_max", "orgs_mss_mean"], ["orgs_mq_min", "orgs_mq_max", "orgs_mq_mean"]);
    grp!(ig, "isps_top_tier_size", ["isps_mbs_min", "isps_mbs_max", "isps_mbs_mean"], ["isps_mss_min", "isps_mss_max", "isps_mss_mean"], ["isps_mq_min", "isps_mq_max", "isps_mq_mean"]);
    grp!(cg, "ctries_top_tier_size", ["ctries_mbs_min", "ctries_mbs_max", "ctries_mbs_mean"], ["ctries_mss_min", "ctries_mss_max", "ctries_mss_mean"], ["ctries_mq_min", "ctries_mq_max", "ctries_mq_mean"]);
    v.extend(tops);
    v.push(("standard_form_hash", Cell::S(std_hash(&i.fbas))));
    for d in ["analysis_duration_mq", "analysis_duration_mbs", "analysis_duration_mss", "analysis_duration_total"] {
        v.push((d, Cell::Dur));
    }
    v
}
/// The network bulk_performance_experiment documents to analyze.
fn perf_fbas(m: usize, stellar: bool) -> MF {
    let k = if stellar { m / 3 } else { m };
    // 67%: all but what may fail of k = 3f + 1
    let t = (k - (k - 1) / 3) as u64;
    let q = if stellar {
        MQ { t, v: vec![], i: (0..k).map(|o| MQ { t: 2, v: vec![3 * o, 3 * o + 1, 3 * o + 2], i: vec![] }).collect() }
    } else {
        MQ { t, v: (0..m).collect(), i: vec![] }
    };
    MF { nodes: (0..m).map(|x| MNode { pk: format!("n{}", x), q: q.clone(), isp: None, country: None }).collect() }
}
fn perf_row(m: usize, run: usize, t: &Truth) -> Vec<(&'static str, Cell)> {
    let n = |x: usize| Cell::N(x as f64);
    let mut v = vec![
        ("top_tier_size", n(m)),
        ("run", n(run)),
        ("mq_number", n(t.mq.len())),
        ("mbs_number", n(t.mbs.len())),
        ("mss_number", n(t.mss.len())),
        ("mq_mean", Cell::N(stats(&t.mq).0 .2)),
        ("mbs_mean", Cell::N(stats(&t.mbs).0 .2)),
        ("mss_mean", Cell::N(stats(&t.mss).0 .2)),
    ];
    for d in &PERF_COLS[8..] {
        v.push((d, Cell::Dur));
    }
    v
}

fn cell_ok(c: &Cell, s: &str) -> bool {
    match c {
        Cell::S(x) => x == s,
        Cell::N(x) => s.parse::<f64>().map_or(false, |y| (x - y).abs() <= 1e-9 * (1.0 + x.abs())),
        Cell::Dur => s.parse::<f64>().map_or(false, |y| y.is_finite() && y >= 0.0),
    }
}
fn kept_ok(a: &str, b: &str) -> bool {
    a == b || matches!((a.parse::<f64>(), b.parse::<f64>()), (Ok(x), Ok(y)) if x == y)
}

// ------------------------------------------------------------------------------------ the tables
struct Table {
    perf: bool,
    want: BTreeMap<String, Want>,
}
impl Table {
    fn cols(&self) -> &'static [&'static str] {
        if self.perf {
            PERF_COLS
        } else {
            BULK_COLS
        }
    }
    fn key(&self, rec: &BTreeMap<String, String>) -> String {
        let g = |k: &str| rec.get(k).cloned().unwrap_or_default();
        if self.perf {
            perf_key(g("top_tier_size").parse().unwrap_or(0), g("run").parse().unwrap_or(0))
        } else {
            g("label")
        }
    }
    /// what the rows are sorted by
    fn ord(&self, key: &str) -> String {
        if self.perf {
            key.split(' ').next().unwrap_or("").to_string()
        } else {
            key.to_string()
        }
    }
    /// Complete records by column name.
    fn records(&self, text: &str) -> Result<(Vec<BTreeMap<String, String>>, String), String> {
        let (mut recs, tail) = csv(text);
        if recs.is_empty() {
            return Ok((vec![], tail));
        }
        let head = recs.remove(0);
        for c in self.cols() {
            if !head.iter().any(|h| h == c) {
                return Err(format!("the header has no column {}: {:?}", c, head));
            }
        }
        let mut out = vec![];
        for r in recs {
            if r.len() != head.len() {
                return Err(format!("a row has {} fields, the header {}: {:?}", r.len(), head.len(), r));
            }
            out.push(head.iter().cloned().zip(r).collect());
        }
        Ok((out, tail))
    }
    fn row_ok(&self, key: &str, rec: &BTreeMap<String, String>) -> Result<(), String> {
        match self.want.get(key) {
            None => Err(format!("a row for {:?}, which was not asked for", key)),
            Some(Want::Impossible) => Err(format!("a row for {:?}, whose input is unusable", key)),
            Some(Want::Row(cells)) => {
                for (col, c) in cells {
                    let s = rec.get(*col).map(|s| s.as_str()).unwrap_or("?");
                    if !cell_ok(c, s) {
                        return Err(format!("row {:?}: {} is {:?}, should be {:?}", key, col, s, c));
                    }
                }
                Ok(())
            }
            Some(Want::Kept(old)) => {
                for (col, c) in old {
                    let s = rec.get(col).map(|s| s.as_str()).unwrap_or("?");
                    if !kept_ok(c, s) {
                        return Err(format!("existing row {:?}: {} was {:?} and is now {:?}", key, col, c, s));
                    }
                }
                Ok(())
            }
        }
    }
    /// Is `text` the whole table, or (if not `complete`) what a run that stopped early may leave?
    fn check(&self, text: &str, complete: bool) -> Result<(), String> {
        let (recs, tail) = self.records(text)?;
        if !complete && recs.is_empty() {
            let head = self.cols().join(",");
            let first = text.lines().next().unwrap_or("");
            if text.contains('\n') {
                // header done, first row under way
            } else if !head.starts_with(first) {
                return Err(format!("what stands in place of a header: {:?}", first));
            }
        }
        let mut seen: Vec<String> = vec![];
        for rec in &recs {
            let k = self.key(rec);
            self.row_ok(&k, rec)?;
            if seen.contains(&k) {
                return Err(format!("two rows for {:?}", k));
            }
            if let Some(l) = seen.last() {
                if self.ord(l) > self.ord(&k) {
                    return Err(format!("row {:?} comes after row {:?}", k, l));
                }
            }
            seen.push(k);
        }
        let missing: Vec<&String> = self.want.keys().filter(|k| !seen.contains(*k)).collect();
        if complete {
            if let Some(k) = missing.first() {
                return Err(format!("no row for {:?} ({} of {} rows)", k, recs.len(), self.want.len()));
            }
            if !tail.is_empty() {
                return Err(format!("ends with an incomplete row {:?}", tail));
            }
        } else {
            // nothing may have been skipped
            if let (Some(l), Some(m)) = (seen.last(), missing.iter().map(|k| self.ord(k)).min()) {
                if m < self.ord(l) {
                    return Err(format!("row {:?} was left out, row {:?} is there", m, l));
                }
            }
            if !tail.is_empty() && !recs.is_empty() {
                let next = match missing.iter().map(|k| self.ord(k)).min() {
                    Some(m) => m,
                    None => return Err(format!("more after the last row: {:?}", tail)),
                };
                let done = csv(&(tail.clone() + "\n")).0.pop().unwrap_or_default();
                if !self.perf && done.len() > 1 && done[0] != next {
                    return Err(format!("incomplete row for {:?}, the next one is {:?}", done[0], next));
                }
            }
        }
        Ok(())
    }
}
fn perf_key(size: u64, run: u64) -> String {
    format!("{:04} {}", size, run)
}

// ------------------------------------------------------------------------------------ generation
const LABELS: &[&str] = &[
    "2020-06-03", "2020-06-04", "2019-12-31", "a", "B", "b", "10", "9", "x_y", "run_2_c", "a,b", "q\"x", "0", "zz", "é", "2020-06-03b", "",
    "nodes2", "stellarbeat2_x", "foo2", "1_2nodes",
];
fn gen_inputs(r: &mut Rng, count: usize, ignore: &Option<String>) -> Vec<In> {
    let ig = ignore.clone().unwrap_or_else(|| "stellarbeat".into());
    let labels: Vec<String> = r.sample(LABELS.len(), count).into_iter().map(|k| LABELS[k].to_string()).collect();
    let sub = r.chance(1, 6);
    labels
        .into_iter()
        .enumerate()
        .map(|(k, l)| {
            let join = |parts: &[&str]| parts.iter().filter(|p| !p.is_empty()).cloned().collect::<Vec<_>>().join("_") + ".json";
            let (x, y) = match l.find('_') {
                Some(p) => (l[..p].to_string(), l[p + 1..].to_string()),
                None => (l.clone(), String::new()),
            };
            let named = |w: &str, r: &mut Rng| match r.below(6) {
                0 => join(&[&l, w]),
                1 => join(&[w, &l]),
                2 => join(&[&ig, w, &l]),
                3 => join(&[&l, &ig, w]),
                4 => join(&[&x, w, &y]),
                _ if w == "nodes" && !l.is_empty() => join(&[&l]),
                _ => join(&[&ig, &l, w]),
            };
            let mut nodes = named("nodes", r);
            let mut orgs_file = if r.chance(1, 2) { Some(named("organizations", r)) } else { None };
            if sub {
                nodes = format!("d{}/{}", k % 2, nodes);
                orgs_file = orgs_file.map(|o| format!("o/{}", o));
            }
            let sh = Shape { max_core: r.range(1, 7), duplicates: r.chance(1, 4), degenerate: r.chance(1, 5), metadata: r.chance(1, 2), huge: false };
            let mut f = MF::default();
            let mut flat = None;
            if r.chance(1, 30) {
                let (g, c) = gen_flat_small(r, 60, 120);
                f = g;
                flat = Some(c);
            }
            for _ in 0..if flat.is_none() { 20 } else { 0 } {
                f = gen_fbas(r, &sh);
                if f.n() <= 14 && f.truth(10).is_some() {
                    break;
                }
                f = MF::default();
            }
            let orgs = if orgs_file.is_some() && r.chance(9, 10) { gen_orgs(r, &f) } else { vec![] };
            In { label: l, nodes, orgs_file, fbas: f, flat, orgs, cut_nodes: 1000, cut_orgs: 1000, missing: false }
        })
        .collect()
}
/// A row as an earlier run may have left it, with numbers no analysis would give.
fn sentinel_row(r: &mut Rng, perf: bool, key: &str) -> Vec<String> {
    let dur = |r: &mut Rng| format!("{}", r.below(1_000_000) as f64 / 1e6 + 1e-7);
    if perf {
        let w: Vec<&str> = key.split(' ').collect();
        let mut v = vec![w[0].parse::<u64>().unwrap_or(0).to_string(), w[1].to_string()];
        for _ in 0..3 {
            v.push((700 + r.below(100)).to_string());
        }
        for _ in 0..3 {
            v.push(format!("{}.25", 700 + r.below(100)));
        }
        for _ in 0..6 {
            v.push(dur(r));
        }
        return v;
    }
    let three = |r: &mut Rng, v: &mut Vec<String>, some: bool| {
        for _ in 0..3 {
            if some {
                v.push((700 + r.below(100)).to_string());
                v.push((800 + r.below(100)).to_string());
                v.push(format!("{}.5", 700 + r.below(100)));
            } else {
                v.extend(["".to_string(), "".into(), "".into()]);
            }
        }
    };
    let mut v = vec![key.to_string(), r.chance(1, 2).to_string(), (700 + r.below(99)).to_string()];
    three(r, &mut v, true);
    for _ in 0..3 {
        let some = r.chance(1, 2);
        v.push(if some { (700 + r.below(99)).to_string() } else { String::new() });
        three(r, &mut v, some);
    }
    v.push(format!("{:064x}", r.next()));
    for _ in 0..4 {
        v.push(dur(r));
    }
    v
}
fn csv_text(cols: &[&str], rows: &[Vec<String>]) -> String {
    let mut s = cols.join(",") + "\n";
    for row in rows {
        s += &(row
            .iter()
            .enumerate()
            // (an empty field is quoted only if it is all there is)
            .map(|(_, f)| if f.is_empty() { String::new() } else { csv_field(f) })
            .collect::<Vec<_>>()
            .join(",")
            + "\n");
    }
    s
}
fn benign(r: &mut Rng, files: &[String]) -> Vec<Value> {
    let mut v = vec![];
    for _ in 0..r.below(4) {
        let f = r.pick(files).clone();
        let at = r.below(1000);
        v.push(match r.below(9) {
            0 => json!({"cls": "read", "path": f, "at": at, "kind": "short", "arg": r.range(1, 40), "sticky": r.chance(1, 2)}),
            1 => json!({"cls": "read", "path": f, "at": at, "kind": "errno", "arg": libc::EINTR}),
            2 => json!({"cls": "write", "path": "*", "at": at, "kind": "short", "arg": r.range(1, 20), "sticky": r.chance(1, 2)}),
            3 => json!({"cls": "write", "path": "*", "at": at, "kind": "errno", "arg": libc::EINTR}),
            4 => json!({"cls": "any", "path": "*", "at": at, "kind": "spurious", "arg": r.below(8)}),
            5 | 6 => json!({"cls": "any", "path": "*", "at": at, "kind": "stall", "arg": *r.pick(&[5, 50, 1000])}),
            7 => json!({"cls": "any", "path": "*", "at": at, "kind": "jump", "arg": *r.pick(&[-3_600_000_000_000i64, -400_000_000_000_000_000, 86_400_000_000_000])}),
            _ => json!({"cls": "open", "path": f, "at": at, "kind": "errno", "arg": libc::EINTR}),
        });
    }
    v
}
fn hard(r: &mut Rng, files: &[String]) -> Value {
    let f = r.pick(files).clone();
    let at = r.below(1000);
    match r.below(12) {
        0 => json!({"cls": "open", "path": f, "at": at, "kind": "errno", "arg": *r.pick(&[libc::EACCES, libc::EMFILE, libc::EIO, libc::ENOENT])}),
        1 | 2 => json!({"cls": "read", "path": f, "at": at, "kind": "errno", "arg": libc::EIO}),
        3 => json!({"cls": "read", "path": "*", "at": at, "kind": "errno", "arg": libc::EIO}),
        4 | 5 => json!({"cls": "write", "path": OUT, "at": at, "kind": "errno", "arg": *r.pick(&[libc::ENOSPC, libc::EIO, libc::EDQUOT]), "sticky": r.chance(1, 2)}),
        6 => json!({"cls": "write", "path": "stdout", "at": at, "kind": "errno", "arg": *r.pick(&[libc::ENOSPC, libc::EIO, libc::EPIPE]), "sticky": r.chance(1, 2)}),
        7 => json!({"cls": "write", "path": OUT, "at": at, "kind": "torn", "arg": r.range(1, 60)}),
        8 => json!({"cls": "open", "path": OUT, "at": at, "kind": "errno", "arg": *r.pick(&[libc::EACCES, libc::EMFILE, libc::EROFS, libc::ENOSPC])}),
        9 => json!({"cls": "thread", "path": "*", "at": at.min(600), "kind": "errno", "arg": libc::EAGAIN}),
        10 => json!({"cls": "malloc", "path": "*", "at": at, "kind": "null", "arg": 0}),
        _ => json!({"cls": "write", "path": "stderr", "at": at, "kind": "errno", "arg": libc::EIO}),
    }
}
fn crash(r: &mut Rng) -> Value {
    let at = r.below(1000);
    match r.below(6) {
        0 => json!({"cls": "any", "path": "*", "at": at, "kind": "crash"}),
        1 => json!({"cls": "write", "path": OUT, "at": at, "kind": "torn", "arg": r.range(1, 400)}),
        2 => json!({"cls": "write", "path": OUT, "at": at, "kind": "crash"}),
        3 => json!({"cls": "write", "path": OUT, "at": at, "kind": "crash_after"}),
        4 => json!({"cls": "open", "path": OUT, "at": at, "kind": "crash_after"}),
        _ => json!({"cls": "any", "path": "*", "at": r.range(500, 999), "kind": "crash"}),
    }
}

impl Family for Bulk {
    fn gen(&self, seed: u64, tier: Tier) -> Value {
        let mut r = Rng::new(seed);
        let kind = match self.0 {
            Kind::Perf => *r.pick(&[Kind::Order, Kind::Errors, Kind::Resume]),
            k => k,
        };
        let perf = match self.0 {
            Kind::Perf => true,
            Kind::NoClobber => r.chance(1, 3),
            _ => false,
        };
        let big = tier == Tier::Thorough && r.chance(1, 3);
        let ignore = if r.chance(1, 5) { Some("foo".to_string()) } else { None };
        let count = match self.0 {
            Kind::Resume if r.chance(1, 4) => r.range(5, 8),
            Kind::Resume => r.range(2, 4),
            Kind::NoClobber => r.range(1, 2),
            _ if r.chance(1, 25) => 0,
            _ => r.range(1, if big { 9 } else { 5 }),
        };
        let mut inputs = if perf { vec![] } else { gen_inputs(&mut r, count, &ignore) };
        let stellar = perf && r.chance(1, 3);
        let max_m = if r.chance(1, 20) {
            r.range(10, 12)
        } else if stellar {
            *r.pick(&[3, 4, 6, 7, 9])
        } else {
            r.range(1, if big { 8 } else { 6 })
        };
        let runs = r.range(1, 3);
        let to_file = match kind {
            Kind::Resume | Kind::NoClobber => true,
            _ => r.chance(3, 4),
        };
        let files: Vec<String> = inputs
            .iter()
            .flat_map(|i| Some(i.nodes.clone()).into_iter().chain(i.orgs_file.clone()))
            .chain(if inputs.is_empty() { Some(OUT.to_string()) } else { None })
            .collect();
        // keys existing rows may be about
        let keys: Vec<String> = if perf {
            let far = [(1, 99), (1, 100), (2, 1000), (3, 300), (30, 0), (100, 1), (101, 70_000), (1_000_000, 2)];
            let near = (1..=max_m + 2).flat_map(|m| (0..runs + 1).map(move |k| (m as u64, k as u64)));
            near.chain(far.into_iter().filter(|f| f.0 as usize > max_m || f.1 as usize > runs)).map(|(m, k)| perf_key(m, k)).collect()
        } else {
            inputs.iter().map(|i| i.label.clone()).chain(["2018-01-01", "M", "zzz"].iter().map(|s| s.to_string())).collect()
        };
        let cols = if perf { PERF_COLS } else { BULK_COLS };
        let mut pre = |r: &mut Rng| -> Value {
            let k = r.below(keys.len() + 1);
            let rows: Vec<Vec<String>> = r.sample(keys.len(), k).into_iter().map(|x| sentinel_row(r, perf, &keys[x])).collect();
            json!({"kind": "file", "text": csv_text(cols, &rows)})
        };
        let all: Vec<usize> = (0..inputs.len()).collect();
        let step = |r: &mut Rng, update: bool, faults: Vec<Value>| {
            let mut order = all.clone();
            r.shuffle(&mut order);
            json!({"update": update, "use": order, "garble": [], "jobs": *r.pick(&[1, 1, 2, 2, 3, 4, 7]), "runs": runs,
                "sched": gen_sched(r, true), "faults": faults})
        };
        let mut existing = Value::Null;
        let mut steps = vec![];
        match kind {
            Kind::Order | Kind::Time => {
                let up = to_file && r.chance(1, 3);
                if up {
                    existing = pre(&mut r);
                }
                let mut b = benign(&mut r, &files);
                if kind == Kind::Time {
                    for _ in 0..r.range(1, 3) {
                        b.push(json!({"cls": "clock", "path": "*", "at": r.below(1000), "kind": "jump",
                            "arg": *r.pick(&[-3_600_000_000_000i64, -400_000_000_000_000_000, -1, -5_000_000, -60_000_000_000])}));
                    }
                }
                steps.push(step(&mut r, up, b));
            }
            Kind::Errors => {
                let mut f = vec![];
                if perf || r.chance(3, 4) {
                    f.push(hard(&mut r, &files));
                    if r.chance(1, 4) {
                        f.push(hard(&mut r, &files));
                    }
                } else if !inputs.is_empty() {
                    let k = r.below(inputs.len());
                    match r.below(4) {
                        0 => inputs[k].missing = true,
                        1 if inputs[k].orgs_file.is_some() => inputs[k].cut_orgs = r.below(1000) as u64,
                        _ => inputs[k].cut_nodes = r.below(1000) as u64,
                    }
                }
                if r.chance(1, 4) {
                    f.extend(benign(&mut r, &files));
                }
                steps.push(step(&mut r, false, f));
            }
            Kind::Resume => {
                let first_up = r.chance(1, 3);
                if first_up {
                    existing = pre(&mut r);
                }
                let n = r.range(1, 3);
                for k in 0..n {
                    let mut f = if r.chance(4, 5) { vec![crash(&mut r)] } else { vec![hard(&mut r, &files)] };
                    if r.chance(1, 5) {
                        f.extend(benign(&mut r, &files));
                    }
                    let mut s = step(&mut r, k > 0 || first_up, f);
                    if r.chance(1, 3) {
                        let keep = r.range(0, all.len());
                        let l: Vec<Value> = s["use"].as_array().unwrap()[..keep].to_vec();
                        s["use"] = Value::Array(l);
                        s["runs"] = json!(r.range(1, runs));
                    }
                    steps.push(s);
                }
                let b = benign(&mut r, &files);
                let mut last = step(&mut r, true, b);
                last["garble"] = json!(r.chance(1, 2));
                steps.push(last);
            }
            Kind::NoClobber => {
                match r.below(6) {
                    0 => existing = pre(&mut r),
                    1 => existing = json!({"kind": "file", "text": ""}),
                    2 => existing = json!({"kind": "file", "text": "my notes\nno table\n"}),
                    3 => existing = json!({"kind": *r.pick(&["dir", "link"]), "text": "linked\n"}),
                    _ => {}
                }
                let mut f = if r.chance(1, 2) { benign(&mut r, &files) } else { vec![] };
                if existing.is_null() {
                    let cls = *r.pick(&["open", "any", "any"]);
                    let path = if cls == "open" { OUT } else { "*" };
                    f.push(json!({"cls": cls, "path": path, "at": r.below(1000), "kind": "ext", "sarg": OUT}));
                }
                if r.chance(1, 5) {
                    f.push(json!({"cls": "stat", "path": OUT, "at": 0, "kind": "errno", "arg": *r.pick(&[libc::ENOENT, libc::EACCES])}));
                }
                steps.push(step(&mut r, false, f));
            }
            Kind::Perf => unreachable!(),
        }
        json!({"perf": perf, "mode": format!("{:?}", kind), "stellar": stellar, "max": max_m, "inputs": inputs, "ignore": ignore, "to_file": to_file,
            "verbose": *r.pick(&[0, 0, 0, 1, 2, 3]), "existing": existing, "steps": steps})
    }

    fn run(&self, case: &Value) -> Outcome {
        let mut o = Outcome::default();
        self.exec(case, &mut o);
        o
    }

    fn shrink(&self, case: &Value) -> Vec<Value> {
        let steps = case["steps"].as_array().cloned().unwrap_or_default();
        if !steps.iter().all(|s| get_b(s, "explicit")) {
            // from here on, work with what happened instead of with what decided it
            let mut o = Outcome::default();
            let done = self.exec(case, &mut o);
            let mut c = case.clone();
            for (k, (ran, placed)) in done.iter().enumerate() {
                c["steps"][k] = explicit(&steps[k], ran, placed);
            }
            // steps that were not reached
            let n = done.len().max(1);
            let a = c["steps"].as_array().unwrap()[..n.min(steps.len())].to_vec();
            c["steps"] = Value::Array(a);
            return vec![c];
        }
        let mut out = vec![];
        out.extend(drop_from_array(case, "steps", 1));
        let set = |out: &mut Vec<Value>, k: &str, v: Value| {
            if case[k] != v {
                let mut c = case.clone();
                c[k] = v;
                out.push(c);
            }
        };
        set(&mut out, "existing", Value::Null);
        set(&mut out, "verbose", json!(0));
        // without an input
        let n = case["inputs"].as_array().map_or(0, |a| a.len());
        for k in 0..n {
            let mut c = case.clone();
            c["inputs"].as_array_mut().unwrap().remove(k);
            for s in c["steps"].as_array_mut().unwrap() {
                let u: Vec<usize> = from(s, "use");
                s["use"] = json!(u.into_iter().filter(|&x| x != k).map(|x| if x > k { x - 1 } else { x }).collect::<Vec<_>>());
            }
            out.push(c);
        }
        for (k, s) in steps.iter().enumerate() {
            if get_u(s, "jobs") > 1 {
                for j in [1, get_u(s, "jobs") - 1] {
                    let mut c = case.clone();
                    c["steps"][k]["jobs"] = json!(j);
                    out.push(c);
                }
            }
            if get_u(s, "runs") > 1 {
                let mut c = case.clone();
                c["steps"][k]["runs"] = json!(1);
                out.push(c);
            }
            for v in shrink_step(s) {
                let mut c = case.clone();
                c["steps"][k] = v;
                out.push(c);
            }
        }
        if get_b(case, "perf") && get_u(case, "max") > 1 {
            set(&mut out, "max", json!(get_u(case, "max") - 1));
        }
        if let Some(t) = case["existing"]["text"].as_str() {
            let l: Vec<&str> = t.lines().collect();
            for k in 1..l.len() {
                let mut m = l.clone();
                m.remove(k);
                let mut c = case.clone();
                c["existing"]["text"] = json!(m.join("\n") + "\n");
                out.push(c);
            }
        }
        for k in 0..n {
            let i: In = serde_json::from_value(case["inputs"][k].clone()).unwrap();
            if i.orgs_file.is_some() {
                let mut c = case.clone();
                c["inputs"][k]["orgs_file"] = Value::Null;
                out.push(c);
            }
            for (f, g) in shrink_fbas(&i.fbas, &i.orgs).into_iter().take(if i.flat.is_none() { 60 } else { 0 }) {
                let mut c = case.clone();
                c["inputs"][k]["fbas"] = json!(f);
                c["inputs"][k]["orgs"] = json!(g);
                out.push(c);
            }
        }
        out
    }
    fn budget(&self) -> (u64, u64) {
        match self.0 {
            Kind::Resume => (6_000, 400_000),
            Kind::Perf => (6_000, 200_000),
            _ => (25_000, 500_000),
        }
    }
    fn real(&self) -> Vec<&'static str> {
        match self.0 {
            Kind::Perf => vec!["the bulk_performance_experiment binary, with the crate, par-map, csv and the Rust standard library"],
            Kind::NoClobber => vec!["the bulk_fbas_analyzer and bulk_performance_experiment binaries, with the crate, par-map, csv and the Rust standard library", "the kernel's file system in a scratch directory, behind the seam"],
            _ => vec!["the bulk_fbas_analyzer binary, with the crate, par-map, csv, serde and the Rust standard library", "the kernel's file system in a scratch directory, behind the seam"],
        }
    }
    fn stub(&self) -> Vec<&'static str> {
        vec!["thread scheduling, futexes, clocks, entropy, allocation failure and every file operation: libdst.so"]
    }
    fn rule(&self) -> &'static str {
        "distinct traces (schedule, file operations, faults, exit statuses) of runs in which the tool had several rows or several steps to do"
    }
    fn is_proc(&self) -> bool {
        true
    }
}

struct Ctx<'a> {
    case: &'a Value,
    inputs: Vec<In>,
    perf: bool,
    to_file: bool,
    rows: BTreeMap<String, Want>,
}

impl Bulk {
    /// Runs all steps; returns what each did and the faults as placed.
    fn exec(&self, case: &Value, o: &mut Outcome) -> Vec<(Ran, Vec<Fault>)> {
        let perf = get_b(case, "perf");
        let inputs: Vec<In> = from(case, "inputs");
        let to_file = get_b(case, "to_file");
        let mode = get_s(case, "mode");
        let mut cx = Ctx { case, inputs, perf, to_file, rows: BTreeMap::new() };
        // what each row has to say
        for i in &cx.inputs {
            let w = if i.missing || i.cut_nodes < 1000 || (i.cut_orgs < 1000 && i.orgs_file.is_some()) {
                Want::Impossible
            } else {
                match truth_of(&i.fbas, &i.flat) {
                    Some(t) => Want::Row(bulk_row(i, &t)),
                    None => panic!("harness: network too large for the model"),
                }
            };
            cx.rows.insert(i.label.clone(), w);
        }
        let dir = Dir::new();
        for i in &cx.inputs {
            self.put_input(&dir, i);
        }
        match get_s(&case["existing"], "kind") {
            "file" => dir.put(OUT, get_s(&case["existing"], "text").as_bytes()),
            "dir" => std::fs::create_dir(dir.work().join(OUT)).expect("harness: scratch"),
            "link" => {
                dir.put("target.txt", get_s(&case["existing"], "text").as_bytes());
                std::os::unix::fs::symlink("target.txt", dir.work().join(OUT)).expect("harness: scratch");
            }
            _ => {}
        }
        let mut done = vec![];
        let steps = case["steps"].as_array().cloned().unwrap_or_default();
        let n = steps.len();
        for (k, step) in steps.iter().enumerate() {
            let last = k + 1 == n;
            let mut step = step.clone();
            let before = dir.get(OUT);
            if mode == "Resume" {
                // a user resumes if there is something to resume from
                if before.is_none() {
                    step["update"] = json!(false);
                }
                if get_b(&step, "garble") {
                    let t = Table { perf, want: BTreeMap::new() };
                    if let Some((recs, _)) = before.as_ref().and_then(|b| t.records(&String::from_utf8_lossy(b)).ok()) {
                        for i in &cx.inputs {
                            if recs.iter().any(|r| t.key(r) == i.label) {
                                dir.put(&i.nodes, b"[{\"publicKey\": 7, \"quorumSet");
                            }
                        }
                    }
                }
            }
            let (ran, placed) = self.step(&cx, &dir, &step, o);
            // (the file is not a table any more after that)
            let ok = o.ok() && !o.known.iter().any(|k| k == "row-written-again");
            done.push((ran, placed));
            if !ok {
                break;
            }
            let ran = &done.last().unwrap().0;
            if last && mode == "Resume" && get_b(&step, "update") && !ran.ok() {
                // refused because of a torn row: once that row is gone it has to work
                if let Some(b) = dir.get(OUT) {
                    let cut = b.iter().rposition(|&c| c == b'\n').map_or(0, |p| p + 1);
                    if cut < b.len() {
                        o.count("refused because of a torn row", 1);
                        dir.put(OUT, &b[..cut]);
                        let mut s = step.clone();
                        s["faults"] = json!([]);
                        self.step(&cx, &dir, &s, o);
                        if !o.ok() {
                            break;
                        }
                    }
                }
            }
        }
        o.nontrivial = cx.rows.len() + case["steps"].as_array().map_or(0, |a| a.len()) > 2 || perf;
        done
    }
    fn put_input(&self, dir: &Dir, i: &In) {
        let cut = |s: String, at: u64| -> Vec<u8> {
            let mut b = s.into_bytes();
            if at < 1000 {
                // never just trailing white space
                let k = (b.len() - 1) * at as usize / 1000;
                b.truncate(k);
            }
            b
        };
        if !i.missing {
            dir.put(&i.nodes, &cut(i.fbas.json(), i.cut_nodes));
        }
        if let Some(of) = &i.orgs_file {
            let v: Vec<Value> = i
                .orgs
                .iter()
                .map(|g| json!({"name": g.name, "validators": g.v.iter().map(|&x| i.fbas.name(x)).collect::<Vec<_>>()}))
                .collect();
            dir.put(of, &cut(serde_json::to_string(&v).unwrap(), i.cut_orgs));
        }
    }
    fn args(&self, cx: &Ctx, step: &Value) -> Vec<String> {
        let mut a: Vec<String> = vec![];
        let mut add = |s: &[&str]| a.extend(s.iter().map(|x| x.to_string()));
        let jobs = get_u(step, "jobs").to_string();
        if jobs != "1" {
            add(&["-j", &jobs]);
        }
        if cx.to_file {
            add(&["-o", OUT]);
        }
        if get_b(step, "update") {
            add(&["-u"]);
        }
        for _ in 0..get_u(cx.case, "verbose") {
            add(&["-v"]);
        }
        if cx.perf {
            add(&["-m", &get_u(cx.case, "max").to_string(), "-r", &get_u(step, "runs").to_string()]);
            if get_b(cx.case, "stellar") {
                add(&["--stellar-like"]);
            }
        } else {
            if let Some(i) = cx.case["ignore"].as_str() {
                add(&["-i", i]);
            }
            for &k in &from::<Vec<usize>>(step, "use") {
                let i = &cx.inputs[k];
                add(&[&i.nodes]);
                if let Some(of) = &i.orgs_file {
                    add(&[of]);
                }
            }
        }
        a
    }
    /// One invocation of the tool, judged.
    fn step(&self, cx: &Ctx, dir: &Dir, step: &Value, o: &mut Outcome) -> (Ran, Vec<Fault>) {
        let tool = if cx.perf { "bulk_performance_experiment" } else { "bulk_fbas_analyzer" };
        let args = self.args(cx, step);
        let mut cfg = cfg_of(&step["sched"]);
        let faults = step["faults"].as_array().cloned().unwrap_or_default();
        let before = dir.get(OUT);
        let update = get_b(step, "update");
        // the table this invocation has to produce
        let mut table = Table { perf: cx.perf, want: BTreeMap::new() };
        let mut torn = String::new();
        if update {
            if let Some(b) = &before {
                match table.records(&String::from_utf8_lossy(b)) {
                    Ok((recs, tail)) => {
                        for r in recs {
                            let k = table.key(&r);
                            table.want.insert(k, Want::Kept(r));
                        }
                        torn = tail;
                    }
                    Err(m) => panic!("harness: existing file: {}", m),
                }
            }
        }
        if cx.perf {
            let (max, stellar, runs) = (get_u(cx.case, "max"), get_b(cx.case, "stellar"), get_u(step, "runs"));
            for m in (1..=max).filter(|m| !stellar || m % 3 == 0) {
                let t = perf_fbas(m as usize, stellar).truth(16).expect("harness: size");
                for run in 0..runs {
                    table.want.entry(perf_key(m, run)).or_insert_with(|| Want::Row(perf_row(m as usize, run as usize, &t)));
                }
            }
        } else {
            for &k in &from::<Vec<usize>>(step, "use") {
                let l = &cx.inputs[k].label;
                let w = cx.rows[l].clone();
                table.want.entry(l.clone()).or_insert(w);
            }
        }
        let header_torn = update && before.as_ref().map_or(false, |b| !b.contains(&b'\n'));
        let what = format!("{} {}", tool, args.join(" "));
        // the run without faults places the faults
        let mut placed = vec![];
        if faults.iter().any(|f| get_u(f, "nth") == 0) {
            let copy = Dir::new();
            copy_dir(&dir.work(), &copy.work());
            let dry = run_tool(&copy, tool, &args, None, &cfg);
            account(o, &dry);
            self.judge(cx, step, &what, &table, &torn, header_torn, &before, &dry, &[], &copy, o);
            if !o.ok() {
                return (dry, vec![]);
            }
            for f in &faults {
                placed.extend(place(f, &dry));
            }
        } else {
            for f in &faults {
                placed.extend(place(f, &Ran::default()));
            }
        }
        cfg.faults = placed.clone();
        let ran = run_tool(dir, tool, &args, None, &cfg);
        account(o, &ran);
        count_end(o, &ran);
        self.judge(cx, step, &what, &table, &torn, header_torn, &before, &ran, &placed, dir, o);
        (ran, placed)
    }

    #[allow(clippy::too_many_arguments)]
    fn judge(
        &self, cx: &Ctx, step: &Value, what: &str, table: &Table, torn: &str, header_torn: bool, before: &Option<Vec<u8>>, ran: &Ran,
        placed: &[Fault], dir: &Dir, o: &mut Outcome,
    ) {
        let update = get_b(step, "update");
        let ctx = |m: String| format!("{}; {} (exit {:?} {}; stderr: {})", what, m, ran.code, ran.why, tail_err(ran));
        if let Some(s) = ran.stuck() {
            return o.fail("stuck", ctx(s));
        }
        // (the C library aborts when it runs out of memory where Rust cannot be told)
        if ran.signalled() && !(ran.code == Some(-libc::SIGABRT) && placed.iter().any(|f| f.kind == "null")) {
            return o.fail("killed by a signal", ctx(String::new()));
        }
        let hit = |kinds: &[&str]| ran.evs.iter().any(|e| matches!(e, Ev::Fault { kind, .. } if kinds.contains(&kind.as_str())));
        let fired: Vec<&Fault> = ran
            .evs
            .iter()
            .filter_map(|e| if let Ev::Fault { id, .. } = e { placed.get(*id) } else { None })
            .collect();
        let harmless = |f: &&Fault| match f.kind.as_str() {
            "short" | "spurious" | "stall" | "jump" | "ext" => true,
            // (the csv reader gives up on an interrupted read)
            "errno" => f.arg == libc::EINTR as i64 && !(f.cls == "read" && f.path == OUT) || f.cls == "stat" || f.path == "stderr",
            _ => false,
        };
        // (no trace is left when the C library aborts)
        let untraced = ran.signalled();
        let clean = !untraced && fired.iter().all(harmless) && !fired.iter().any(|f| f.path == "stderr");
        let link = get_s(&cx.case["existing"], "kind");
        let after = dir.get(OUT);
        let text = match (cx.to_file, &after) {
            (false, _) => String::from_utf8_lossy(&ran.out).into_owned(),
            (true, Some(b)) => String::from_utf8_lossy(b).into_owned(),
            (true, None) => String::new(),
        };
        // --- nothing existing is overwritten without -u
        if cx.to_file && !update {
            let write_open = ran.evs.iter().position(|e| matches!(e, Ev::Op(p) if p.cls == "open" && p.path == OUT && p.res >= 0 && p.flags & 3 != 0));
            let ext = ran.evs.iter().position(|e| matches!(e, Ev::Fault { kind, .. } if kind == "ext"));
            let came_first = match (ext, write_open) {
                (Some(e), Some(w)) => e < w,
                (Some(_), None) => true,
                _ => false,
            };
            if link == "dir" {
                if !dir.work().join(OUT).is_dir() {
                    return o.fail("existing output replaced", ctx("a directory stood where the output should go".into()));
                }
                if ran.ok() {
                    return o.fail("exit 0 without output", ctx("a directory stands where the output should go".into()));
                }
                return;
            }
            let existed = if before.is_some() {
                before.clone()
            } else if came_first {
                o.count("output file appeared while running", 1);
                Some(b"EXTERNAL\n".to_vec())
            } else {
                None
            };
            if let Some(b) = existed {
                if after.as_ref() != Some(&b) {
                    return o.fail(
                        "existing output overwritten",
                        ctx(format!("the file held {:?} and now holds {:?}", String::from_utf8_lossy(&b), text)),
                    );
                }
                if ran.ok() {
                    return o.fail("exit 0 without output", ctx("the output file existed, nothing was written".into()));
                }
                return;
            }
        }
        // A torn row can be taken for a whole one only if it has all its fields.
        let mut t2 = Table { perf: table.perf, want: table.want.clone() };
        let mut torn_accepted = None;
        if update && !torn.is_empty() && !header_torn {
            let whole = String::from_utf8_lossy(before.as_ref().unwrap()).into_owned() + "\n";
            torn_accepted = Some(false);
            if let Ok((recs, _)) = table.records(&whole) {
                if let Some(r) = recs.last() {
                    t2.want.insert(table.key(r), Want::Kept(r.clone()));
                    torn_accepted = Some(true);
                }
            }
        }
        let impossible = table.want.values().any(|w| matches!(w, Want::Impossible));
        // --- rows are saved while the work proceeds
        if !update && matches!(self.0, Kind::Resume | Kind::Perf) && !untraced {
            let window = 2 * get_u(step, "jobs") as usize + 1;
            match self.saved(cx, table, &text, ran, window) {
                Ok(n) => o.count("times finished rows had to be in the file", n),
                Err(m) => return o.fail("finished rows not saved", ctx(m)),
            }
        }
        if ran.ok() {
            // --- success means the whole table
            if impossible {
                return o.fail("exit 0 despite an unusable input", ctx(text));
            }
            if let Some(a) = torn_accepted.as_ref() {
                match a {
                    true => o.known.push("torn-last-field".into()),
                    false => return o.fail("a torn row was accepted", ctx(format!("the existing file ended with {:?}", torn))),
                }
            }
            if let Err(m) = t2.check(&text, true) {
                // a table with no rows at all is an empty file
                if !(t2.want.is_empty() && text.is_empty()) {
                    return o.fail("wrong table with exit 0", ctx(m));
                }
            }
            if clean {
                o.count("complete tables", 1);
            }
            if let Err(m) = self.judge_time(cx, &t2, &text, ran) {
                return o.fail("wrong duration", ctx(m));
            }
            return;
        }
        // --- no success
        // After a write that got only part of a row out and then failed, the csv writer writes the
        // whole row once more when it is dropped.
        let mut text = text;
        {
            let p = if cx.to_file { OUT } else { "stdout" };
            let (mut total, mut cut, mut again) = (0usize, None, false);
            for q in ran.ops().filter(|q| q.cls == "write" && q.path == p) {
                if q.res >= 0 {
                    total += q.res as usize;
                    again |= cut.is_some() && q.res > 0;
                } else if q.err != libc::EINTR as i64 && cut.is_none() {
                    cut = Some(total);
                }
            }
            if let Some(c) = cut {
                if again && hit(&["short"]) && t2.check(&text, false).is_err() && text.is_char_boundary(c.min(text.len())) {
                    o.known.push("row-written-again".into());
                    text.truncate(c);
                }
            }
        }
        if clean && !impossible && !(update && (!torn.is_empty() || before.is_none() || header_torn)) {
            return o.fail("failed without a reason", ctx(format!("faults: {:?}", fired)));
        }
        if update {
            let rewrite = ran.evs.iter().position(|e| matches!(e, Ev::Op(p) if p.cls == "open" && p.path == OUT && p.res >= 0 && p.flags & 3 != 0));
            match rewrite {
                None if !untraced => {
                    if after != *before {
                        return o.fail("existing results changed by a failed update", ctx(text));
                    }
                    o.count("failed updates that left the file alone", 1);
                }
                // what an aborted process did last may be missing from its trace
                None if after == *before => o.count("failed updates that left the file alone", 1),
                p => {
                    if let (Some(p), true, true) = (p, cx.perf, before.as_ref().map_or(false, |b| !b.is_empty())) {
                        // a measurement takes many readings of the clock; one or two may be for something else
                        let n = ran.evs.iter().skip(p + 1).filter(|e| matches!(e, Ev::Clock { clk, .. } if *clk == libc::CLOCK_MONOTONIC as u64)).count();
                        if n > 5 {
                            return o.fail("existing results given up before the new ones were there", ctx(format!("{} readings of the monotonic clock after {} was emptied", n, OUT)));
                        }
                    }
                    let p = p.unwrap_or(ran.evs.len().saturating_sub(1));
                    // after this point the rows are rewritten in place; the analyses have to be over
                    if let Some(Ev::Op(q)) = ran.evs.iter().skip(p + 1).find(|e| matches!(e, Ev::Op(q) if q.cls == "open" && q.path != OUT && cx.inputs.iter().any(|i| i.nodes == q.path))) {
                        return o.fail("existing results given up before the new ones were there", ctx(format!("{} is read after {} was emptied", q.path, OUT)));
                    }
                    if torn_accepted == Some(false) && after != *before {
                        return o.fail("a file with a torn row was rewritten", ctx(text));
                    }
                    if let Err(m) = t2.check(&text, false) {
                        return o.fail("wrong table after a failed update", ctx(m));
                    }
                    if after != *before {
                        o.known.push("rewrite-in-place".into());
                    }
                }
            }
        } else {
            if let Err(m) = table.check(&text, false) {
                // nothing was printed or created at all
                if !(text.is_empty()) {
                    return o.fail("wrong table after a failure", ctx(m));
                }
            }
            if impossible || hit(&["errno", "null", "torn"]) {
                o.count("failures with a correct partial table", 1);
            }
        }
    }

    /// When the work on a row begins, the rows before it are in the file, but for those that can be
    /// in progress or waiting for an earlier one. Returns how often there was something to check.
    fn saved(&self, cx: &Ctx, table: &Table, text: &str, ran: &Ran, window: usize) -> Result<u64, String> {
        let path = if cx.to_file { OUT } else { "stdout" };
        let labels: Vec<&String> = table.want.keys().collect();
        let clock = |e: &Ev| matches!(e, Ev::Clock { clk, .. } if *clk != libc::CLOCK_REALTIME as u64 && *clk != libc::CLOCK_REALTIME_COARSE as u64);
        // readings of the clock per row, if they are the same for all rows
        let reads = ran.evs.iter().filter(|e| clock(e)).count();
        let per_row = if cx.perf && ran.ok() && !labels.is_empty() && reads % labels.len() == 0 { reads / labels.len() } else { 0 };
        let (mut bytes, mut seen, mut n) = (0usize, 0usize, 0);
        for e in &ran.evs {
            let mut begun = None; // number of the row (from 0) that certainly has been begun
            match e {
                Ev::Op(p) if p.cls == "write" && p.path == path => {
                    if p.res > 0 {
                        bytes += p.res as usize;
                    } else if p.err != libc::EINTR as i64 {
                        break;
                    }
                }
                Ev::Op(p) if p.cls == "open" && p.res >= 0 && !cx.perf => {
                    begun = cx.inputs.iter().find(|i| i.nodes.replace(' ', "_") == p.path).and_then(|i| labels.iter().position(|l| **l == i.label));
                }
                e if clock(e) => {
                    seen += 1;
                    if per_row > 0 {
                        begun = Some((seen - 1) / per_row);
                    }
                }
                _ => {}
            }
            if let Some(t) = begun {
                if t > window {
                    n += 1;
                    let have = text.as_bytes()[..bytes.min(text.len())].iter().filter(|&&c| c == b'\n').count().saturating_sub(1);
                    if have < t - window {
                        return Err(format!("only {} rows have been written when the work on row {} of {} begins", have, t + 1, labels.len()));
                    }
                }
            }
        }
        Ok(n)
    }

    /// Durations in the rows analyzed by this run are differences of two readings of a clock
    /// that cannot be set, taken by one thread, and the total one covers everything.
    fn judge_time(&self, cx: &Ctx, table: &Table, text: &str, ran: &Ran) -> Result<(), String> {
        if self.0 != Kind::Time && self.0 != Kind::Perf {
            return Ok(());
        }
        let (recs, _) = table.records(text)?;
        // clock readings and openings of input files, per thread, in order
        let mut reads: BTreeMap<u64, Vec<(usize, u64)>> = BTreeMap::new();
        for (k, e) in ran.evs.iter().enumerate() {
            if let Ev::Clock { tid, clk, ns } = e {
                if *clk != libc::CLOCK_REALTIME as u64 && *clk != libc::CLOCK_REALTIME_COARSE as u64 {
                    reads.entry(*tid).or_default().push((k, *ns));
                }
            }
        }
        for rec in recs {
            let key = table.key(&rec);
            if !matches!(table.want.get(&key), Some(Want::Row(_))) {
                continue;
            }
            let d = |c: &str| rec.get(c).and_then(|s| s.parse::<f64>().ok()).unwrap_or(-1.0);
            let cols: Vec<&str> = table.cols().iter().filter(|c| c.starts_with("analysis_duration_")).cloned().collect();
            let file = cx.inputs.iter().find(|i| i.label == key).map(|i| i.nodes.replace(' ', "_"));
            let mut why = String::from("no thread read the clock that way");
            let fits = reads.iter().any(|(tid, v)| {
                let some = |x: f64, pred: &dyn Fn(usize, usize) -> bool| {
                    v.iter().enumerate().any(|(i, a)| {
                        v[i + 1..].iter().any(|b| ((b.1.wrapping_sub(a.1)) as f64 / 1e9 - x).abs() <= 1e-9 * (1.0 + x.abs()) && pred(a.0, b.0))
                    })
                };
                for c in &cols {
                    let ok = if *c == "analysis_duration_total" && file.is_some() {
                        some(d(c), &|a, b| {
                            ran.evs.iter().enumerate().any(|(k, e)| {
                                k > a && k < b && matches!(e, Ev::Op(p) if p.tid == *tid && p.cls == "open" && Some(&p.path) == file.as_ref())
                            })
                        })
                    } else {
                        some(d(c), &|_, _| true)
                    };
                    if !ok {
                        why = format!("row {:?}: {} = {} is no time that passed on thread {}", key, c, d(c), tid);
                        return false;
                    }
                }
                true
            });
            if !fits {
                return Err(why);
            }
            let parts: f64 = cols.iter().filter(|c| **c != "analysis_duration_total").map(|c| d(c)).sum();
            let total = d("analysis_duration_total");
            if total + 1e-9 * (1.0 + total) < parts {
                return Err(format!("row {:?}: total {} is less than the sum of its parts {}", key, total, parts));
            }
            if total > ran.sim_ns as f64 / 1e9 + 1e-6 {
                return Err(format!("row {:?}: total {} is more than the whole run took", key, total));
            }
        }
        Ok(())
    }
}
pub fn copy_dir(from: &std::path::Path, to: &std::path::Path) {
    for e in std::fs::read_dir(from).expect("harness: scratch").flatten() {
        let t = to.join(e.file_name());
        let ft = e.file_type().expect("harness: scratch");
        if ft.is_dir() {
            std::fs::create_dir(&t).expect("harness: scratch");
            copy_dir(&e.path(), &t);
        } else if ft.is_symlink() {
            std::os::unix::fs::symlink(std::fs::read_link(e.path()).unwrap(), &t).expect("harness: scratch");
        } else {
            std::fs::copy(e.path(), &t).expect("harness: scratch");
        }
    }
}

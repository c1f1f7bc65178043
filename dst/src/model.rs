//! Reference model of an FBAS and of everything the analyzer says about one.
//!
//! Written from the definitions, sharing no code with the crate under test: a quorum is a
//! non-empty node set that satisfies every member's quorum set; everything else is brute force
//! over subsets.
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

pub type Set = BTreeSet<usize>;

/// Quorum set. A validator index that is not a node of the FBAS is an unknown public key.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord, Default)]
pub struct MQ {
    pub t: u64,
    pub v: Vec<usize>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub i: Vec<MQ>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct MNode {
    pub pk: String,
    pub q: MQ,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub isp: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub country: Option<String>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct MF {
    pub nodes: Vec<MNode>,
}
/// A list of named groups of nodes (organizations).
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct MOrg {
    pub name: String,
    pub v: Vec<usize>,
}

impl MQ {
    pub fn satisfied(&self, has: &dyn Fn(usize) -> bool) -> bool {
        if self.t == 0 {
            return false;
        }
        let n = self.v.iter().filter(|&&x| has(x)).count()
            + self.i.iter().filter(|q| q.satisfied(has)).count();
        n as u64 >= self.t
    }
    pub fn members(&self, out: &mut Set) {
        out.extend(self.v.iter().copied());
        for q in &self.i {
            q.members(out);
        }
    }
    fn all_leaves(&self, out: &mut Vec<usize>) {
        out.extend(self.v.iter().copied());
        for q in &self.i {
            q.all_leaves(out);
        }
    }
    pub fn has_duplicates(&self) -> bool {
        let mut l = vec![];
        self.all_leaves(&mut l);
        let s: Set = l.iter().copied().collect();
        s.len() != l.len()
    }
    /// Sort everything, drop validators that are not nodes.
    pub fn canonical(&self, n: usize) -> MQ {
        let mut v: Vec<usize> = self.v.iter().copied().filter(|&x| x < n).collect();
        v.sort_unstable();
        let mut i: Vec<MQ> = self.i.iter().map(|q| q.canonical(n)).collect();
        i.sort();
        MQ { t: self.t, v, i }
    }
    pub fn json(&self, f: &MF) -> serde_json::Value {
        let mut m = serde_json::Map::new();
        m.insert("threshold".into(), self.t.into());
        let v: Vec<String> = self.v.iter().map(|&x| f.name(x)).collect();
        m.insert("validators".into(), v.into());
        if !self.i.is_empty() {
            let v: Vec<serde_json::Value> = self.i.iter().map(|q| q.json(f)).collect();
            m.insert("innerQuorumSets".into(), v.into());
        }
        serde_json::Value::Object(m)
    }
}

/// Everything the model says about one FBAS.
#[derive(Clone, Debug, Default)]
pub struct Truth {
    pub n: usize,
    pub satisfiable: Set,
    /// Each list is sorted by (size, elements).
    pub mq: Vec<Set>,
    pub mbs: Vec<Set>,
    pub mss: Vec<Set>,
    pub intersection: bool,
    pub top_tier: Set,
    pub symmetric: Vec<MQ>,
    pub symmetric_top_tier: Option<MQ>,
}

pub fn sort_sets(mut v: Vec<Set>) -> Vec<Set> {
    v.sort_by(|a, b| a.len().cmp(&b.len()).then(a.cmp(b)));
    v.dedup();
    v
}
pub fn minimal_only(v: Vec<Set>) -> Vec<Set> {
    let v = sort_sets(v);
    let mut out: Vec<Set> = vec![];
    for s in v {
        if out.iter().all(|o| !o.is_subset(&s)) {
            out.push(s);
        }
    }
    out
}

impl MF {
    pub fn n(&self) -> usize {
        self.nodes.len()
    }
    pub fn name(&self, x: usize) -> String {
        match self.nodes.get(x) {
            Some(n) => n.pk.clone(),
            None => format!("unknown-{}", x),
        }
    }
    pub fn json(&self) -> String {
        let v: Vec<serde_json::Value> = self
            .nodes
            .iter()
            .map(|n| {
                let mut m = serde_json::Map::new();
                m.insert("publicKey".into(), n.pk.clone().into());
                m.insert("quorumSet".into(), n.q.json(self));
                if let Some(i) = &n.isp {
                    m.insert("isp".into(), i.clone().into());
                }
                if let Some(c) = &n.country {
                    m.insert(
                        "geoData".into(),
                        serde_json::json!({ "countryName": c.clone() }),
                    );
                }
                serde_json::Value::Object(m)
            })
            .collect();
        serde_json::to_string_pretty(&v).unwrap()
    }
    pub fn is_quorum(&self, s: &Set) -> bool {
        !s.is_empty() && s.iter().all(|&x| self.nodes[x].q.satisfied(&|y| s.contains(&y)))
    }
    /// The union of all quorums inside `s`.
    pub fn greatest_quorum(&self, s: &Set) -> Set {
        let mut s = s.clone();
        loop {
            let bad: Vec<usize> = s
                .iter()
                .copied()
                .filter(|&x| !self.nodes[x].q.satisfied(&|y| s.contains(&y)))
                .collect();
            if bad.is_empty() {
                return s;
            }
            for b in bad {
                s.remove(&b);
            }
        }
    }
    /// Nodes that can possibly be part of a minimal quorum of more than one node, and the
    /// single-node quorums: a node that no other candidate refers to can be dropped from any
    /// bigger quorum without breaking it.
    fn candidates(&self, sat: &Set) -> (Set, Vec<usize>) {
        let mut singles = vec![];
        for &x in sat {
            if self.nodes[x].q.satisfied(&|y| y == x) {
                singles.push(x);
            }
        }
        let mut c: Set = sat.iter().copied().filter(|x| !singles.contains(x)).collect();
        loop {
            let mut referred = Set::new();
            for &x in &c {
                let mut m = Set::new();
                self.nodes[x].q.members(&mut m);
                m.remove(&x);
                referred.extend(m);
            }
            let next: Set = c.intersection(&referred).copied().collect();
            if next.len() == c.len() {
                return (c, singles);
            }
            c = next;
        }
    }
    /// Strongly connected parts of the nodes `s` and their references among each other.
    fn strong_parts(&self, s: &Set) -> Vec<Set> {
        let reach = |x: usize, back: bool| -> Set {
            let mut seen: Set = [x].into_iter().collect();
            let mut todo = vec![x];
            while let Some(x) = todo.pop() {
                for &y in s {
                    let mut m = Set::new();
                    self.nodes[if back { y } else { x }].q.members(&mut m);
                    if m.contains(if back { &x } else { &y }) && seen.insert(y) {
                        todo.push(y);
                    }
                }
            }
            seen
        };
        let mut left = s.clone();
        let mut parts = vec![];
        while let Some(&x) = left.iter().next() {
            let p: Set = reach(x, false).intersection(&reach(x, true)).copied().collect();
            left.retain(|y| !p.contains(y));
            parts.push(p);
        }
        parts
    }
    /// `None` if the brute-force space is larger than `max_bits`.
    pub fn truth(&self, max_bits: usize) -> Option<Truth> {
        let n = self.n();
        let all: Set = (0..n).collect();
        let sat = self.greatest_quorum(&all);
        let (mut cand, singles) = self.candidates(&sat);
        if cand.len() > max_bits {
            // A minimal quorum is strongly connected by its nodes' references: otherwise the part of
            // it that refers to no other part would be a quorum of its own.
            loop {
                let next: Set = self.strong_parts(&cand).iter().flat_map(|p| self.greatest_quorum(p)).collect();
                if next.len() == cand.len() {
                    break;
                }
                cand = self.candidates(&next).0;
            }
        }
        let ids: Vec<usize> = cand.iter().copied().collect();
        let k = ids.len();
        if k > max_bits {
            return None;
        }
        // quorums among the candidates (no single-node quorum inside, so minimality among
        // candidates is minimality)
        let pos: BTreeMap<usize, usize> = ids.iter().enumerate().map(|(i, &x)| (x, i)).collect();
        let total = 1usize << k;
        let mut has_q = vec![false; total]; // contains a quorum
        let mut minimal: Vec<usize> = vec![];
        for mask in 1..total {
            let mut sub = false;
            let mut m = mask;
            while m != 0 {
                let b = m & m.wrapping_neg();
                if has_q[mask ^ b] {
                    sub = true;
                    break;
                }
                m ^= b;
            }
            if sub {
                has_q[mask] = true;
                continue;
            }
            let has = |y: usize| pos.get(&y).map_or(false, |&p| mask >> p & 1 == 1);
            let ok = ids
                .iter()
                .enumerate()
                .filter(|(i, _)| mask >> i & 1 == 1)
                .all(|(_, &x)| self.nodes[x].q.satisfied(&has));
            if ok {
                has_q[mask] = true;
                minimal.push(mask);
            }
        }
        let to_set = |mask: usize| -> Set {
            ids.iter()
                .enumerate()
                .filter(|(i, _)| mask >> i & 1 == 1)
                .map(|(_, &x)| x)
                .collect()
        };
        let mut mq: Vec<Set> = minimal.iter().map(|&m| to_set(m)).collect();
        mq.extend(singles.iter().map(|&x| [x].iter().copied().collect::<Set>()));
        let mq = sort_sets(mq);
        // minimal blocking sets: the singles have to be in every blocking set
        let mut mbs = vec![];
        if !mq.is_empty() {
            for mask in 0..total {
                let rest = (total - 1) ^ mask;
                if has_q[rest] {
                    continue;
                }
                let mut m = mask;
                let mut min = true;
                while m != 0 {
                    let b = m & m.wrapping_neg();
                    if !has_q[rest | b] {
                        min = false;
                        break;
                    }
                    m ^= b;
                }
                if min {
                    let mut s = to_set(mask);
                    s.extend(singles.iter().copied());
                    mbs.push(s);
                }
            }
        }
        let mbs = sort_sets(mbs);
        let mut intersection = !mq.is_empty();
        if mq.len() > 1 && !singles.is_empty() {
            intersection = false;
        }
        let mut mss = vec![];
        if intersection && singles.is_empty() {
            let mut is_x = vec![false; total];
            for (a, &x) in minimal.iter().enumerate() {
                for &y in &minimal[a + 1..] {
                    is_x[x & y] = true;
                }
            }
            if is_x[0] {
                intersection = false;
            } else {
                // keep the minimal ones
                let mut sub = vec![false; total];
                for mask in 0..total {
                    let mut s = false;
                    let mut m = mask;
                    while m != 0 {
                        let b = m & m.wrapping_neg();
                        if sub[mask ^ b] {
                            s = true;
                            break;
                        }
                        m ^= b;
                    }
                    if !s && is_x[mask] {
                        mss.push(to_set(mask));
                        s = true;
                    }
                    sub[mask] = s;
                }
            }
        }
        if !intersection {
            mss = vec![Set::new()];
        }
        let mss = sort_sets(mss);
        let top_tier: Set = mq.iter().flatten().copied().collect();
        // symmetric clusters
        let canon: Vec<MQ> = self.nodes.iter().map(|x| x.q.canonical(n)).collect();
        let mut symmetric: Vec<MQ> = vec![];
        for &x in &sat {
            let q = &canon[x];
            let mut c = Set::new();
            q.members(&mut c);
            if c.contains(&x)
                && c.iter().all(|&y| canon[y] == *q)
                && q.satisfied(&|y| c.contains(&y))
                && !symmetric.contains(q)
            {
                symmetric.push(q.clone());
            }
        }
        symmetric.sort();
        let symmetric_top_tier = if symmetric.len() == 1 {
            let mut c = Set::new();
            symmetric[0].members(&mut c);
            let rest: Set = all.difference(&c).copied().collect();
            if self.greatest_quorum(&rest).is_empty() {
                Some(symmetric[0].clone())
            } else {
                None
            }
        } else {
            None
        };
        Some(Truth {
            n,
            satisfiable: sat,
            mq,
            mbs,
            mss,
            intersection,
            top_tier,
            symmetric,
            symmetric_top_tier,
        })
    }
}

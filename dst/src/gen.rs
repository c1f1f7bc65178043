//! Workload generator: FBASs of many shapes.
use crate::model::*;
use crate::rng::Rng;

/// How wild the generated quorum sets may be.
#[derive(Clone, Copy)]
pub struct Shape {
    pub max_core: usize,
    pub duplicates: bool,
    pub degenerate: bool,
    pub metadata: bool,
    pub huge: bool,
}

fn rand_qset(r: &mut Rng, pool: &[usize], depth: usize, sh: &Shape) -> MQ {
    let mut v = vec![];
    let mut i = vec![];
    let k = r.range(1, pool.len().min(6).max(1));
    for x in r.sample(pool.len(), k) {
        v.push(pool[x]);
    }
    if depth > 0 && r.chance(2, 5) {
        for _ in 0..r.range(1, 3) {
            i.push(rand_qset(r, pool, depth - 1, sh));
        }
        if r.chance(1, 3) {
            v.clear();
        } else {
            let keep = r.range(0, v.len());
            v.truncate(keep);
        }
    }
    if !sh.duplicates {
        // make leaves unique
        let mut seen = Set::new();
        dedup(&mut v, &mut i, &mut seen);
    } else if r.chance(1, 6) && !v.is_empty() {
        let d = *r.pick(&v);
        v.push(d);
    }
    let total = v.len() + i.len();
    let t = pick_threshold(r, total, sh);
    MQ { t, v, i }
}
fn dedup(v: &mut Vec<usize>, i: &mut Vec<MQ>, seen: &mut Set) {
    v.retain(|x| seen.insert(*x));
    for q in i.iter_mut() {
        dedup(&mut q.v, &mut q.i, seen);
        // keep the inner quorum set satisfiable
        let m = (q.v.len() + q.i.len()) as u64;
        if q.t > m {
            q.t = m;
        }
    }
    i.retain(|q| !q.v.is_empty() || !q.i.is_empty());
}
fn pick_threshold(r: &mut Rng, total: usize, sh: &Shape) -> u64 {
    let total = total as u64;
    if sh.degenerate && r.chance(1, 12) {
        return *r.pick(&[0, total + 1, total + 3, u64::MAX]);
    }
    if total == 0 {
        return if sh.degenerate { r.below(2) as u64 } else { 1 };
    }
    match r.below(5) {
        0 => total,
        1 => total - (total - 1) / 3,
        2 => total / 2 + 1,
        3 => 1 + r.below(total as usize) as u64,
        _ => (total + 1) / 2,
    }
}

/// Nests the quorum set, or one of its validators, several levels deeper; keeps its meaning.
fn deepen(r: &mut Rng, q: &mut MQ) {
    let levels = r.range(1, 5);
    if q.v.is_empty() || r.chance(1, 3) {
        for _ in 0..levels {
            let inner = std::mem::take(q);
            *q = MQ { t: 1, v: vec![], i: vec![inner] };
        }
    } else {
        for _ in 0..r.range(1, q.v.len()) {
            let x = r.below(q.v.len());
            let x = q.v.remove(x);
            let mut inner = MQ { t: 1, v: vec![x], i: vec![] };
            for _ in 1..levels {
                inner = MQ { t: 1, v: vec![], i: vec![inner] };
            }
            q.i.push(inner);
        }
    }
}

/// A quorum set over exactly the nodes `pool`.
fn partition_qset(r: &mut Rng, pool: &[usize], depth: usize, sh: &Shape) -> MQ {
    let mut v = vec![];
    let mut i = vec![];
    if depth == 0 || pool.len() < 4 || r.chance(1, 3) {
        v.extend_from_slice(pool);
    } else {
        let mut rest: Vec<usize> = pool.to_vec();
        r.shuffle(&mut rest);
        while !rest.is_empty() {
            let k = r.range(1, 4).min(rest.len());
            let part: Vec<usize> = rest.drain(..k).collect();
            if part.len() == 1 || r.chance(1, 5) {
                v.extend(part);
            } else {
                i.push(partition_qset(r, &part, depth - 1, sh));
            }
        }
    }
    if sh.duplicates && r.chance(1, 6) && !pool.is_empty() {
        v.push(*r.pick(pool));
    }
    if sh.degenerate && r.chance(1, 8) {
        // an inner quorum set nobody known belongs to
        let tt = r.range(1, 3) as u64;
        i.push(MQ { t: tt, v: vec![900_000 + r.below(5)], i: vec![] });
    }
    let t = pick_threshold(r, v.len() + i.len(), sh);
    MQ { t, v, i }
}

pub const ODD_NAMES: &[&str] = &[
    "Amazon, Inc.",
    "DigitalOcean, LLC",
    "Hetzner Online GmbH",
    "OVH SAS.",
    "Telefónica Perú",
    "Curaçao",
    "日本電信電話株式会社",
    "A.",
    "United States",
    "Germany",
    "Côte d'Ivoire",
    "a b, c",
    "Google Cloud",
];

pub fn gen_fbas(r: &mut Rng, sh: &Shape) -> MF {
    // core nodes get "interesting" quorum sets, the rest refers to them or is broken
    let core = r.range(1, sh.max_core);
    let extra = match r.below(8) {
        0 => r.range(1, 4),
        1 => r.range(1, 10),
        2 if sh.huge && r.chance(1, 60) => r.range(400, 5000),
        2 => r.range(20, 120),
        _ => 0,
    };
    // many nodes that are quorums of their own
    let loners = extra > 20 && extra < 400 && r.chance(1, 5);
    let n = core + extra;
    let mut ids: Vec<usize> = (0..n).collect();
    if r.chance(2, 3) {
        r.shuffle(&mut ids);
    }
    let core_ids: Vec<usize> = ids[..core].to_vec();
    let mut qs: Vec<MQ> = vec![MQ::default(); n];
    let shape = r.below(9);
    match shape {
        // symmetric cluster over all core nodes
        0 | 1 => {
            let q = partition_qset(r, &core_ids, 2, sh);
            for &x in &core_ids {
                qs[x] = q.clone();
            }
        }
        // near-symmetric: a few nodes deviate
        2 => {
            let q = partition_qset(r, &core_ids, 2, sh);
            for &x in &core_ids {
                qs[x] = q.clone();
            }
            for _ in 0..r.range(1, 2) {
                let x = *r.pick(&core_ids);
                match r.below(3) {
                    0 => {
                        qs[x].v.push(x);
                        if qs[x].t < u64::MAX {
                            qs[x].t += 1;
                        }
                        if !sh.duplicates {
                            qs[x] = rand_qset(r, &core_ids, 1, sh);
                        }
                    }
                    1 => qs[x] = rand_qset(r, &core_ids, 2, sh),
                    _ => qs[x].t = qs[x].t.saturating_sub(1).max(1),
                }
            }
        }
        // several clusters
        3 => {
            let mut rest = core_ids.clone();
            while !rest.is_empty() {
                let k = r.range(1, rest.len());
                let part: Vec<usize> = rest.drain(..k).collect();
                let sym = r.chance(2, 3);
                let q = partition_qset(r, &part, 1, sh);
                for &x in &part {
                    qs[x] = if sym { q.clone() } else { rand_qset(r, &part, 1, sh) };
                }
            }
        }
        // everyone trusts random nodes
        4 | 5 => {
            for &x in &core_ids {
                qs[x] = rand_qset(r, &core_ids, 2, sh);
            }
        }
        // everyone trusts random nodes plus itself, majority-like thresholds
        6 => {
            for &x in &core_ids {
                let k = r.range(1, core_ids.len());
                let mut v: Vec<usize> = r.sample(core, k).into_iter().map(|i| core_ids[i]).collect();
                if !v.contains(&x) {
                    v.push(x);
                }
                let t = (v.len() - (v.len() - 1) / 3) as u64;
                qs[x] = MQ { t, v, i: vec![] };
            }
        }
        // ring / sliding windows
        7 => {
            let w = r.range(1, core.min(4).max(1));
            for (p, &x) in core_ids.iter().enumerate() {
                let v: Vec<usize> = (0..=w).map(|d| core_ids[(p + d) % core]).collect::<Set>().into_iter().collect();
                let t = if r.chance(3, 4) { v.len() as u64 } else { r.range(1, v.len()) as u64 };
                qs[x] = MQ { t, v, i: vec![] };
            }
        }
        // organizations of ~3 nodes as inner quorum sets, with node 0 perturbed sometimes
        _ => {
            let mut rest = core_ids.clone();
            let mut inner = vec![];
            while !rest.is_empty() {
                let k = r.range(1, 3).min(rest.len());
                let part: Vec<usize> = rest.drain(..k).collect();
                let t = (part.len() / 2 + 1) as u64;
                inner.push(MQ { t, v: part, i: vec![] });
            }
            let m = inner.len();
            let t = if r.chance(1, 2) { (m - (m - 1) / 3) as u64 } else { r.range(1, m) as u64 };
            let q = MQ { t, v: vec![], i: inner };
            for &x in &core_ids {
                qs[x] = q.clone();
            }
            if r.chance(1, 3) {
                let x = *r.pick(&core_ids);
                qs[x] = rand_qset(r, &core_ids, 1, sh);
            }
        }
    }
    // nodes that need each other and the core
    let ring = !loners && extra > 2 && extra < 121 && r.chance(1, 5);
    for (k, &x) in ids[core..].iter().enumerate() {
        qs[x] = match r.below(4) {
            _ if ring => MQ { t: 2, v: vec![*r.pick(&core_ids), ids[core + (k + 1) % extra]], i: vec![] },
            _ if loners && r.chance(9, 10) => MQ { t: 1, v: vec![x], i: vec![] },
            0 => MQ::default(),
            1 => MQ { t: 1, v: vec![900_001], i: vec![] },
            2 => rand_qset(r, &core_ids, 1, sh),
            _ => {
                // refers to the core and to other extra nodes
                let mut v: Vec<usize> = vec![*r.pick(&core_ids), *r.pick(&ids[core..])];
                v.sort_unstable();
                v.dedup();
                MQ { t: v.len() as u64, v, i: vec![] }
            }
        };
    }
    if r.chance(1, 6) {
        // some core node trusts outsiders or unknown nodes as well
        let x = *r.pick(&core_ids);
        let y = if n > core { *r.pick(&ids[core..]) } else { 900_002 };
        if !qs[x].v.contains(&y) {
            qs[x].v.push(y);
        }
    }
    // the same requirements, nested more deeply
    if sh.degenerate && r.chance(1, 8) {
        for q in qs.iter_mut() {
            if r.chance(2, 3) {
                deepen(r, q);
            }
        }
    } else if r.chance(1, 12) {
        // ... in the same way for all nodes
        let seed = r.next();
        for q in qs.iter_mut() {
            deepen(&mut Rng::new(seed), q);
        }
    }
    let pk_style = r.below(6);
    let mut pks: Vec<String> = (0..n)
        .map(|x| match pk_style {
            0 => format!("n{}", x),
            1 if n < 997 => format!("G{:03}", (x * 37 + 11) % 997),
            1 => format!("G{:05}", (x * 37 + 11) % 10_007),
            2 => format!("{}{}", ["ab", "aB", "Ab", "AB"][x % 4], x / 4),
            3 => format!("GCM6QMP3DLRPTAZW2UZPCPX2LF3SXWXKPMP3GKFZBDSF3QZGV2G5{:04}", (x * 389 + 7) % 9973),
            4 => format!("{}{}{}", ["", " ", "0", "-", "\\u00e9"][x % 5], x, ["", " ", ".", ","][(x / 2) % 4]),
            _ => format!("node {} é\"\\", x),
        })
        .collect();
    if (1..=4).contains(&pk_style) && r.chance(1, 2) {
        r.shuffle(&mut pks);
    }
    let groups = r.range(1, 5);
    let nodes = qs
        .into_iter()
        .zip(pks)
        .map(|(q, pk)| {
            let (isp, country) = if sh.metadata && r.chance(4, 5) {
                let a = ODD_NAMES[r.below(groups * 2) % ODD_NAMES.len()].to_string();
                let b = ODD_NAMES[(5 + r.below(groups * 2)) % ODD_NAMES.len()].to_string();
                (
                    if r.chance(3, 4) { Some(a) } else { None },
                    if r.chance(3, 4) { Some(b) } else { None },
                )
            } else {
                (None, None)
            };
            MNode { pk, q, isp, country }
        })
        .collect();
    MF { nodes }
}

/// Disjoint organizations over some of the nodes (first listed member names the group's id).
pub fn gen_orgs(r: &mut Rng, f: &MF) -> Vec<MOrg> {
    let n = f.n();
    let mut ids: Vec<usize> = (0..n).collect();
    r.shuffle(&mut ids);
    let mut orgs = vec![];
    let mut k = 0;
    while !ids.is_empty() {
        let m = if r.chance(1, 12) { r.range(5, 20) } else { r.range(1, 4) }.min(ids.len());
        let mut v: Vec<usize> = ids.drain(..m).collect();
        if r.chance(1, 5) {
            continue; // these nodes have no organization
        }
        if r.chance(1, 8) {
            v.push(900_000 + r.below(3));
        }
        orgs.push(MOrg { name: format!("Org {}", k), v });
        k += 1;
    }
    if r.chance(1, 6) {
        orgs.push(MOrg { name: "empty org".into(), v: vec![] });
    }
    orgs
}

/// Networks everything about which has a closed form: symmetric clusters of `core` nodes in
/// groups of `s` (single nodes for s = 1), of which `t` groups are needed with `ts` members each,
/// or (`cycle`) nodes that need one another in a circle. `twist`: one node's quorum set lists the
/// node itself once more with a threshold of t + 1, which changes nothing but keeps the
/// symmetric-cluster shortcut from being taken.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Flat {
    pub core: Vec<usize>,
    pub t: usize,
    pub twist: bool,
    #[serde(default = "one")]
    pub s: usize,
    #[serde(default = "one")]
    pub ts: usize,
    #[serde(default)]
    pub cycle: bool,
}
fn one() -> usize {
    1
}
impl Flat {
    /// Minimal-size unions of `k` members each of `m` of the groups.
    fn pick(&self, m: usize, k: usize) -> Vec<Set> {
        let groups: Vec<&[usize]> = self.core.chunks(self.s).collect();
        let ids: Vec<usize> = (0..groups.len()).collect();
        let mut out = vec![];
        for which in combos(&ids, m) {
            let mut part = vec![Set::new()];
            for g in which {
                let inside = combos(groups[g], k);
                part = part
                    .iter()
                    .flat_map(|p| inside.iter().map(move |q| p.union(q).copied().collect::<Set>()))
                    .collect();
            }
            out.extend(part);
        }
        out
    }
}
fn combos(items: &[usize], k: usize) -> Vec<Set> {
    let mut out = vec![];
    if k > items.len() {
        return out;
    }
    let mut idx: Vec<usize> = (0..k).collect();
    loop {
        out.push(idx.iter().map(|&i| items[i]).collect());
        let mut p = k;
        while p > 0 && idx[p - 1] == items.len() - (k - (p - 1)) {
            p -= 1;
        }
        if p == 0 {
            return out;
        }
        idx[p - 1] += 1;
        for j in p..k {
            idx[j] = idx[j - 1] + 1;
        }
    }
}
fn binom(n: usize, k: usize) -> u64 {
    let mut r: u64 = 1;
    for i in 0..k.min(n - k.min(n)) {
        r = r.saturating_mul((n - i) as u64) / (i as u64 + 1);
    }
    r
}
/// A small closed-form network for runs of a whole program, with metadata.
pub fn gen_flat_small(r: &mut Rng, max_sets: u64, max_n: usize) -> (MF, Flat) {
    loop {
        let (mut f, c) = gen_flat(r, max_sets);
        if f.n() > max_n {
            continue;
        }
        if r.chance(2, 3) {
            for x in f.nodes.iter_mut() {
                if r.chance(2, 3) {
                    x.isp = Some(format!("isp {}", r.below(12)));
                }
                if r.chance(2, 3) {
                    x.country = Some(format!("country {}", r.below(30)));
                }
            }
        }
        return (f, c);
    }
}
pub fn gen_flat(r: &mut Rng, max_sets: u64) -> (MF, Flat) {
    loop {
        let cycle = r.chance(1, 12);
        let (s, ts) = if !cycle && r.chance(1, 3) {
            let s = r.range(2, 4);
            (s, if r.chance(1, 2) { s } else { r.range(1, s) })
        } else {
            (1, 1)
        };
        let m = match r.below(4) {
            _ if cycle => r.range(3, 24),
            0 => r.range(1, 8),
            1 => r.range(9, 20),
            2 => r.range(21, 45),
            _ if r.chance(1, 4) => r.range(76, 300),
            _ => r.range(46, 75),
        };
        let t = match r.below(5) {
            _ if cycle => m,
            0 => m,
            1 => m.saturating_sub(1).max(1),
            2 => 1,
            3 => m - (m - 1) / 3,
            _ => r.range(1, m),
        };
        let n = m * s;
        if n > 320 {
            continue;
        }
        let twist = !cycle && (2..=24).contains(&n) && r.chance(1, 2);
        let count = |k: usize, inside: usize| -> u64 {
            (0..k).fold(binom(m, k), |c, _| c.saturating_mul(binom(s, inside)))
        };
        let overlap = (2 * t).saturating_sub(m);
        let inside = (2 * ts).saturating_sub(s);
        if !cycle && count(t, ts).max(count(m - t + 1, s - ts + 1)).max(count(overlap, inside)) > max_sets {
            continue;
        }
        // huge numbers of intersections of pairs make the work, not the answer
        if count(t, ts) > 400 && n > 80 {
            continue;
        }
        let extra = if r.chance(1, 2) { r.range(0, 70) } else { 0 };
        let total = n + extra;
        let mut ids: Vec<usize> = (0..total).collect();
        r.shuffle(&mut ids);
        let mut core = ids[..n].to_vec();
        if s == 1 && !cycle {
            core.sort_unstable();
        }
        for g in core.chunks_mut(s) {
            g.sort_unstable();
        }
        let flat = Flat { core, t, twist, s, ts, cycle };
        let q = flat.qset();
        let core = &flat.core;
        let me = r.chance(1, 2);
        let nodes = (0..total)
            .map(|x| {
                let q = if let Some(p) = core.iter().position(|&y| y == x) {
                    if cycle {
                        let next = core[(p + 1) % n];
                        MQ { t: 1 + me as u64, v: if me { vec![next, x] } else { vec![next] }, i: vec![] }
                    } else if twist && x == core[n / 2] {
                        let mut q = q.clone();
                        q.v.push(x);
                        q.t += 1;
                        q
                    } else {
                        q.clone()
                    }
                } else {
                    match x % 3 {
                        0 => MQ::default(),
                        1 => MQ { t: 2, v: vec![core[x % n], x], i: vec![] },
                        _ => MQ { t: 1, v: vec![900_003], i: vec![] },
                    }
                };
                MNode { pk: format!("G{:03}", (x * 37 + 11) % 997), q, isp: None, country: None }
            })
            .collect();
        return (MF { nodes }, flat);
    }
}
/// The truth about a network, in closed form if it has one.
pub fn truth_of(f: &MF, flat: &Option<Flat>) -> Option<Truth> {
    match flat {
        Some(c) => Some(closed_truth(f, c)),
        None => f.truth(16),
    }
}
impl Flat {
    fn qset(&self) -> MQ {
        if self.s == 1 {
            return MQ { t: self.t as u64, v: self.core.clone(), i: vec![] };
        }
        let mut i: Vec<MQ> = self.core.chunks(self.s).map(|g| MQ { t: self.ts as u64, v: g.to_vec(), i: vec![] }).collect();
        i.sort();
        MQ { t: self.t as u64, v: vec![], i }
    }
}
pub fn closed_truth(f: &MF, flat: &Flat) -> Truth {
    let (s, ts) = (flat.s, flat.ts);
    let m = flat.core.len() / s;
    let t = flat.t;
    let mut sat: Set = flat.core.iter().copied().collect();
    for x in 0..f.n() {
        if !flat.core.contains(&x) && x % 3 == 1 {
            sat.insert(x);
        }
    }
    let single = t == m && ts == s;
    let mq = flat.pick(t, ts);
    let mbs = if flat.cycle { flat.pick(1, 1) } else { flat.pick(m - t + 1, s - ts + 1) };
    let intersection = 2 * t > m && 2 * ts > s;
    let mss = if !intersection {
        vec![Set::new()]
    } else if single {
        vec![]
    } else {
        flat.pick(2 * t - m, 2 * ts - s)
    };
    let symmetric = if flat.twist || flat.cycle { vec![] } else { vec![flat.qset()] };
    Truth {
        n: f.n(),
        satisfiable: sat,
        mq: sort_sets(mq),
        mbs: sort_sets(mbs),
        mss: sort_sets(mss),
        intersection,
        top_tier: flat.core.iter().copied().collect(),
        symmetric_top_tier: symmetric.first().cloned(),
        symmetric,
    }
}

// -------------------------------------------------------------------------------------- shrinking
fn remap_q(q: &MQ, drop: usize) -> MQ {
    let m = |x: usize| if x > drop && x < 900_000 { x - 1 } else { x };
    MQ {
        t: q.t,
        v: q.v.iter().filter(|&&x| x != drop).map(|&x| m(x)).collect(),
        i: q.i.iter().map(|q| remap_q(q, drop)).collect(),
    }
}
pub fn without_node(f: &MF, orgs: &[MOrg], drop: usize) -> (MF, Vec<MOrg>) {
    let nodes = f
        .nodes
        .iter()
        .enumerate()
        .filter(|(x, _)| *x != drop)
        .map(|(_, n)| MNode { q: remap_q(&n.q, drop), ..n.clone() })
        .collect();
    let orgs = orgs
        .iter()
        .map(|o| MOrg {
            name: o.name.clone(),
            v: o
                .v
                .iter()
                .filter(|&&x| x != drop)
                .map(|&x| if x > drop && x < 900_000 { x - 1 } else { x })
                .collect(),
        })
        .collect();
    (MF { nodes }, orgs)
}
/// Without the nodes from `from` on, as many as `len`.
fn without_range(f: &MF, orgs: &[MOrg], from: usize, len: usize) -> (MF, Vec<MOrg>) {
    fn id(x: usize, from: usize, len: usize) -> Option<usize> {
        match x {
            x if x < from || x >= 900_000 => Some(x),
            x if x < from + len => None,
            x => Some(x - len),
        }
    }
    fn go(q: &MQ, from: usize, len: usize) -> MQ {
        MQ { t: q.t, v: q.v.iter().filter_map(|&x| id(x, from, len)).collect(), i: q.i.iter().map(|q| go(q, from, len)).collect() }
    }
    let nodes = f.nodes.iter().enumerate().filter(|(x, _)| id(*x, from, len).is_some()).map(|(_, n)| MNode { q: go(&n.q, from, len), ..n.clone() }).collect();
    let orgs = orgs.iter().map(|o| MOrg { name: o.name.clone(), v: o.v.iter().filter_map(|&x| id(x, from, len)).collect() }).collect();
    (MF { nodes }, orgs)
}
fn q_variants(q: &MQ) -> Vec<MQ> {
    let mut out = vec![];
    if *q != MQ::default() {
        out.push(MQ::default());
    }
    for k in 0..q.i.len() {
        let mut w = q.clone();
        w.i.remove(k);
        out.push(w.clone());
        if w.t > 1 && w.t <= 1000 {
            w.t -= 1;
            out.push(w);
        }
        for v in q_variants(&q.i[k]) {
            let mut w = q.clone();
            w.i[k] = v;
            out.push(w);
        }
    }
    for k in 0..q.v.len() {
        let mut w = q.clone();
        w.v.remove(k);
        out.push(w.clone());
        if w.t > 1 && w.t <= 1000 {
            w.t -= 1;
            out.push(w);
        }
    }
    if q.t > 1 {
        let mut w = q.clone();
        w.t = if q.t > 1000 { 1000 } else { q.t - 1 };
        out.push(w);
    }
    out
}
pub fn shrink_fbas(f: &MF, orgs: &[MOrg]) -> Vec<(MF, Vec<MOrg>)> {
    let mut out = vec![];
    if f.n() > 130 {
        // whole ranges of nodes at first
        let mut size = f.n() / 2;
        while size >= f.n() / 32 {
            let mut from = 0;
            while from < f.n() {
                out.push(without_range(f, orgs, from, size.min(f.n() - from)));
                from += size;
            }
            size /= 2;
        }
        return out;
    }
    for x in (0..f.n()).rev() {
        out.push(without_node(f, orgs, x));
    }
    if f.nodes.iter().any(|n| n.isp.is_some() || n.country.is_some()) {
        let mut g = f.clone();
        for n in g.nodes.iter_mut() {
            n.isp = None;
            n.country = None;
        }
        out.push((g, orgs.to_vec()));
    }
    for k in 0..orgs.len() {
        let mut o = orgs.to_vec();
        o.remove(k);
        out.push((f.clone(), o));
    }
    // the same quorum set everywhere it occurs, then node by node
    let mut seen: Vec<MQ> = vec![];
    for n in &f.nodes {
        if !seen.contains(&n.q) {
            seen.push(n.q.clone());
        }
    }
    for q in &seen {
        for w in q_variants(q) {
            let mut g = f.clone();
            for n in g.nodes.iter_mut() {
                if n.q == *q {
                    n.q = w.clone();
                }
            }
            out.push((g, orgs.to_vec()));
        }
    }
    for x in 0..f.n() {
        for w in q_variants(&f.nodes[x].q).into_iter().take(12) {
            let mut g = f.clone();
            g.nodes[x].q = w;
            out.push((g, orgs.to_vec()));
        }
    }
    let plain = MF {
        nodes: f
            .nodes
            .iter()
            .enumerate()
            .map(|(x, n)| MNode { pk: format!("n{}", x), ..n.clone() })
            .collect(),
    };
    if plain != *f {
        out.push((plain, orgs.to_vec()));
    }
    out
}

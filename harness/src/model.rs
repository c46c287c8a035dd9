//! Reference models of the analyses: an explicit call tree and what follows from it.
use crate::gen::{Ev, Pay};
use std::collections::BTreeMap;

/// For every event, its parent interval on the same thread (intervals only).
pub fn parents(evs: &[Ev]) -> Vec<Option<usize>> {
    let mut par = vec![None; evs.len()];
    let mut roots: BTreeMap<u32, Vec<usize>> = BTreeMap::new();
    for (i, e) in evs.iter().enumerate() {
        if let Pay::Interval(s, _) = e.pay {
            let r = roots.entry(e.tid).or_default();
            while let Some(&top) = r.last() {
                if evs[top].pay.start().unwrap() >= s {
                    par[top] = Some(i);
                    r.pop();
                } else {
                    break;
                }
            }
            r.push(i);
        }
    }
    par
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Stat {
    pub time: u64,
    pub self_time: u64,
    pub misses: u64,
    pub hits: u64,
    pub count: u64,
    pub blocked: u64,
    pub load: u64,
    pub hashing: u64,
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Analysis {
    pub stats: BTreeMap<String, Stat>,
    pub artifacts: BTreeMap<String, u64>,
    pub total: u64,
    /// sum of the durations of all top-level intervals
    pub top: u64,
}

pub fn spans(evs: &[Ev]) -> BTreeMap<u32, (u64, u64)> {
    let mut m: BTreeMap<u32, (u64, u64)> = BTreeMap::new();
    for e in evs {
        if let Pay::Interval(s, t) = e.pay {
            let x = m.entry(e.tid).or_insert((s, t));
            x.0 = x.0.min(s);
            x.1 = x.1.max(t);
        }
    }
    m
}

fn dur(e: &Ev) -> u64 {
    match e.pay {
        Pay::Interval(s, t) => t - s,
        _ => 0,
    }
}

/// Own time of each interval: duration minus that of its direct children.
pub fn own(evs: &[Ev]) -> Vec<u64> {
    let par = parents(evs);
    let mut own: Vec<u64> = evs.iter().map(dur).collect();
    for (i, p) in par.iter().enumerate() {
        if let Some(p) = p {
            own[*p] -= dur(&evs[i]);
        }
    }
    own
}

pub fn analyze(evs: &[Ev]) -> Analysis {
    let own = own(evs);
    let par = parents(evs);
    let mut a = Analysis::default();
    for (i, e) in evs.iter().enumerate() {
        match e.pay {
            Pay::Interval(..) => {
                let d = dur(e);
                if par[i].is_none() {
                    a.top += d;
                }
                let s = a.stats.entry(e.label.clone()).or_default();
                s.self_time += own[i];
                match e.kind.as_str() {
                    "Query" | "GenericActivity" => {
                        s.time += d;
                        s.count += 1;
                        s.misses += 1;
                    }
                    "QueryBlocked" => {
                        s.time += d;
                        s.count += 1;
                        s.blocked += d;
                    }
                    "IncrementalLoadResult" => {
                        s.time += d;
                        s.load += own[i];
                    }
                    "IncrementalResultHashing" => {
                        s.hashing += own[i];
                    }
                    _ => {
                        s.time += d;
                        s.count += 1;
                    }
                }
            }
            Pay::Instant(_) => {
                if e.kind == "QueryCacheHit" {
                    let s = a.stats.entry(e.label.clone()).or_default();
                    s.hits += 1;
                    s.count += 1;
                }
            }
            Pay::Integer(v) => {
                if e.kind == "ArtifactSize" {
                    *a.artifacts.entry(e.label.clone()).or_default() += v;
                }
            }
        }
    }
    a.total = spans(evs).values().map(|(s, t)| t - s).sum();
    a
}

/// Stack -> own time, without zero entries.
pub fn stacks(evs: &[Ev]) -> BTreeMap<String, u64> {
    let par = parents(evs);
    let own = own(evs);
    let mut names: Vec<Option<String>> = vec![None; evs.len()];
    let mut out: BTreeMap<String, u64> = BTreeMap::new();
    let mut top = 0;
    for i in (0..evs.len()).rev() {
        if let Pay::Interval(..) = evs[i].pay {
            let n = match par[i] {
                Some(p) => format!("{};{}", names[p].as_ref().unwrap(), evs[i].label),
                None => {
                    top += dur(&evs[i]);
                    format!("rustc;{}", evs[i].label)
                }
            };
            *out.entry(n.clone()).or_default() += own[i];
            names[i] = Some(n);
        }
    }
    let total: u64 = spans(evs).values().map(|(s, t)| t - s).sum();
    *out.entry("rustc".into()).or_default() += total - top;
    out.retain(|_, v| *v != 0);
    out
}

/// Nesting depth of the deepest interval.
pub fn depth(evs: &[Ev]) -> u64 {
    let par = parents(evs);
    let mut d = vec![0u64; evs.len()];
    let mut m = 0;
    for i in (0..evs.len()).rev() {
        if let Pay::Interval(..) = evs[i].pay {
            d[i] = 1 + par[i].map(|p| d[p]).unwrap_or(0);
            m = m.max(d[i]);
        }
    }
    m
}

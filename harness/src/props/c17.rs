//! C17: summarize diff reports exactly the change between two profiles.
use super::c16::*;
use super::*;
use crate::enc::{self, Enc, Paging};
use crate::model::{Analysis, Stat};
use crate::{model, tools};
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![prop("C17", 6400, run, "(base, change) pairs with an item in both, one only in the base and one only in the change")]
}

#[derive(Default)]
struct Row {
    self_time: i128,
    time: i128,
    count: i64,
    hits: i64,
    misses: i64,
    blocked: i128,
    load: i128,
    hashing: i128,
    /// percentages (self time, time); None where there is no base to relate to
    pct: (Option<f64>, Option<f64>),
}

fn rows(b: &Analysis, c: &Analysis) -> BTreeMap<String, Row> {
    let z = Stat::default();
    let mut m = BTreeMap::new();
    let labels: BTreeSet<&String> = b.stats.keys().chain(c.stats.keys()).collect();
    for l in labels {
        let (inb, inc) = (b.stats.contains_key(l), c.stats.contains_key(l));
        let x = b.stats.get(l).unwrap_or(&z);
        let y = c.stats.get(l).unwrap_or(&z);
        let d = |p: u64, q: u64| q as i128 - p as i128;
        let n = |p: u64, q: u64| q as i64 - p as i64;
        let pct = |p: u64, q: u64| {
            if !inb {
                Some(f64::INFINITY)
            } else if !inc {
                Some(-100.0)
            } else if p == 0 {
                None
            } else {
                Some(d(p, q) as f64 / p as f64 * 100.0)
            }
        };
        m.insert(
            l.clone(),
            Row {
                self_time: d(x.self_time, y.self_time),
                time: d(x.time, y.time),
                count: n(x.count, y.count),
                hits: n(x.hits, y.hits),
                misses: n(x.misses, y.misses),
                blocked: d(x.blocked, y.blocked),
                load: d(x.load, y.load),
                hashing: d(x.hashing, y.hashing),
                pct: (pct(x.self_time, y.self_time), pct(x.time, y.time)),
            },
        );
    }
    m
}

fn arts(b: &Analysis, c: &Analysis) -> BTreeMap<String, i64> {
    let mut m = BTreeMap::new();
    for (l, v) in &c.artifacts {
        *m.entry(l.clone()).or_insert(0) += *v as i64;
    }
    for (l, v) in &b.artifacts {
        *m.entry(l.clone()).or_insert(0) -= *v as i64;
    }
    m
}

/// A duration difference as printed: a sign and the duration, in full or rounded.
fn same_dur(got: &str, want: i128) -> bool {
    let (neg, rest) = match (got.strip_prefix('-'), got.strip_prefix('+')) {
        (Some(r), _) => (true, r),
        (_, Some(r)) => (false, r),
        _ => return false,
    };
    if want != 0 && neg != (want < 0) {
        return false;
    }
    let d = Duration::from_nanos(want.unsigned_abs() as u64);
    rest == format!("{d:?}") || rest == format!("{d:.2?}")
}

fn same_pct(got: &str, want: Option<f64>) -> bool {
    let Some(g) = got.strip_suffix('%') else { return false };
    match want {
        None => true,
        Some(w) => {
            let sign = g.starts_with('+') || g.starts_with('-');
            sign && pct_close(g, w, 2)
        }
    }
}

fn check_table(out: &str, b: &Analysis, c: &Analysis, excl: &[String], what: &str) -> R {
    let d = parse_tables(out);
    check!(d.tables.len() == 2 && !d.tables[0].is_empty() && !d.tables[1].is_empty(), "{what}: {} tables in {}", d.tables.len(), show(out));
    let head = ["Item", "Self Time", "Self Time Change", "Time", "Time Change", "Item count", "Cache hits", "Blocked time", "Incremental load time", "Incremental hashing time"];
    check!(d.tables[0][0] == head, "{what}: the columns are {:?}", d.tables[0][0]);
    let out_of = |l: &str| excl.iter().any(|e| l.contains(e.as_str()));
    let want = rows(b, c);
    let mut seen = BTreeSet::new();
    let mut last: Option<i128> = None;
    for r in &d.tables[0][1..] {
        let Some(w) = want.get(&r[0]) else { return viol(format!("{what}: row {r:?} is no item of either profile")) };
        check!(r.len() == head.len(), "{what}: row {r:?} has {} cells", r.len());
        check!(seen.insert(r[0].clone()), "{what}: item {} is listed twice", show(&r[0]));
        check!(!out_of(&r[0]), "{what}: excluded item {} is listed", show(&r[0]));
        let a = w.self_time.abs();
        check!(last.map(|l| l >= a).unwrap_or(true), "{what}: item {} with a self time change of {} follows one with {last:?}", show(&r[0]), w.self_time);
        last = Some(a);
        for (i, v) in [(1, w.self_time), (3, w.time), (7, w.blocked), (8, w.load), (9, w.hashing)] {
            check!(same_dur(&r[i], v), "{what}: item {}: {} is {} instead of {v} ns", show(&r[0]), head[i], r[i]);
        }
        for (i, v) in [(5, w.count), (6, w.hits)] {
            check!(r[i] == format!("{v:+}"), "{what}: item {}: {} is {} instead of {v:+}", show(&r[0]), head[i], r[i]);
        }
        for (i, v) in [(2, w.pct.0), (4, w.pct.1)] {
            check!(same_pct(&r[i], v), "{what}: item {}: {} is {} instead of {v:?}", show(&r[0]), head[i], r[i]);
        }
    }
    for l in want.keys() {
        check!(seen.contains(l) || out_of(l), "{what}: item {} is missing", show(l));
    }
    let tot = c.total as i128 - b.total as i128;
    let lines: Vec<&str> = d.lines.iter().filter_map(|l| l.strip_prefix("Total cpu time: ")).collect();
    check!(lines.len() == 1 && same_dur(lines[0], tot), "{what}: total {lines:?} instead of {tot} ns");
    check!(d.tables[1][0] == ["Item", "Artifact Size Change"], "{what}: artifact table {:?}", d.tables[1][0]);
    let mut got = BTreeMap::new();
    for r in &d.tables[1][1..] {
        check!(r.len() == 2 && got.insert(r[0].clone(), r[1].clone()).is_none(), "{what}: artifact row {r:?}");
    }
    let want: BTreeMap<String, String> = arts(b, c).into_iter().filter(|(l, _)| !out_of(l)).map(|(l, v)| (l, format!("{v} bytes"))).collect();
    check!(got == want, "{what}: artifact changes {got:?} instead of {want:?}");
    Ok(())
}

fn check_json(j: &serde_json::Value, b: &Analysis, c: &Analysis, what: &str) -> R {
    let none = vec![];
    let want = rows(b, c);
    let mut seen = BTreeSet::new();
    let dur = |v: &serde_json::Value| -> Option<i128> {
        let n = json_ns(v.get("duration")?)? as i128;
        Some(if v.get("is_positive")?.as_bool()? { n } else { -n })
    };
    let mut last: Option<i128> = None;
    for x in j["query_data"].as_array().unwrap_or(&none) {
        let l = x["label"].as_str().unwrap_or("");
        let Some(w) = want.get(l) else { return viol(format!("{what}: {x} is no item of either profile")) };
        check!(seen.insert(l.to_string()), "{what}: item {} twice", show(l));
        for (k, v) in [("self_time", w.self_time), ("time", w.time), ("blocked_time", w.blocked), ("incremental_load_time", w.load), ("incremental_hashing_time", w.hashing)] {
            check!(dur(&x[k]) == Some(v), "{what}: item {}: {k} is {} instead of {v} ns", show(l), x[k]);
        }
        for (k, v) in [("invocation_count", w.count), ("number_of_cache_hits", w.hits), ("number_of_cache_misses", w.misses)] {
            check!(x[k].as_i64() == Some(v), "{what}: item {}: {k} is {} instead of {v}", show(l), x[k]);
        }
        for (k, v) in [("self_time_change", w.pct.0), ("time_change", w.pct.1)] {
            let ok = match v {
                None => true,
                Some(v) if v.is_infinite() => x[k].is_null(),
                Some(v) => x[k].as_f64().map(|g| (g - v).abs() <= v.abs() * 1e-9 + 1e-9).unwrap_or(false),
            };
            check!(ok, "{what}: item {}: {k} is {} instead of {v:?}", show(l), x[k]);
        }
        let a = w.self_time.abs();
        check!(last.map(|l| l >= a).unwrap_or(true), "{what}: item {} out of order", show(l));
        last = Some(a);
    }
    check!(seen.len() == want.len(), "{what}: {} items instead of {}", seen.len(), want.len());
    let mut got = BTreeMap::new();
    for x in j["artifact_sizes"].as_array().unwrap_or(&none) {
        if let (Some(l), Some(v)) = (x["label"].as_str(), x["size_change"].as_i64()) {
            got.insert(l.to_string(), v);
        }
    }
    let w = arts(b, c);
    check!(got == w, "{what}: artifact changes {got:?} instead of {w:?}");
    let tot = c.total as i128 - b.total as i128;
    check!(dur(&j["total_time"]) == Some(tot), "{what}: total {} instead of {tot} ns", j["total_time"]);
    Ok(())
}

/// A second trace that shares part of its items with the first.
fn variant(t: &Trace, rng: &mut Rng) -> Trace {
    let mut u = t.clone();
    if rng.chance(1, 5) {
        return u; // no change at all
    }
    let labels: Vec<String> = {
        let s: BTreeSet<String> = t.evs.iter().map(|e| e.label.clone()).collect();
        s.into_iter().collect()
    };
    if labels.is_empty() {
        return u;
    }
    let gone: BTreeSet<String> = labels.iter().filter(|_| rng.chance(1, 4)).cloned().collect();
    let fresh = rng.us(4);
    let new: Vec<String> = (0..fresh).map(|i| format!("new{}{i}", table_text(rng))).collect();
    let kinds = ["Query", "GenericActivity", "QueryBlocked", "IncrementalLoadResult", "IncrementalResultHashing"];
    for e in &mut u.evs {
        if gone.contains(&e.label) {
            e.label = if !new.is_empty() && rng.chance(2, 3) { rng.pick(&new).clone() } else { rng.pick(&labels).clone() };
        } else if !new.is_empty() && rng.chance(1, 12) {
            e.label = rng.pick(&new).clone();
        }
        if let Pay::Interval(..) = e.pay {
            if rng.chance(1, 10) {
                e.kind = rng.pick(&kinds).to_string();
            }
        }
        if let Pay::Integer(v) = e.pay {
            if rng.chance(1, 2) {
                e.pay = Pay::Integer(if rng.chance(1, 2) { rng.below(1000) } else { v / 2 + 1 });
            }
        }
    }
    // scale the times (keeps the nesting) or drop events
    match rng.below(4) {
        0 => {
            let k = rng.range(1, 3);
            let d = rng.range(1, 4);
            for e in &mut u.evs {
                e.pay = match e.pay {
                    Pay::Interval(s, t) => Pay::Interval(s / d * k / 3, t / d * k / 3),
                    Pay::Instant(t) => Pay::Instant(t / d * k / 3),
                    Pay::Integer(v) => Pay::Integer(v),
                };
            }
            // scaling can collapse distinct times; keep only what stays properly nested
            u.evs.retain(|e| match e.pay {
                Pay::Interval(s, t) => t > s,
                _ => true,
            });
            if !nested(&u.evs) {
                u.evs = t.evs.clone();
            }
        }
        1 => u.evs.retain(|_| rng.chance(3, 4)),
        2 => u.evs.retain(|e| !gone.contains(&e.label)),
        _ => {}
    }
    u
}

/// Properly nested with no shared end points, so that the call tree is beyond doubt.
fn nested(evs: &[Ev]) -> bool {
    let mut by: BTreeMap<u32, Vec<(u64, u64)>> = BTreeMap::new();
    for e in evs {
        if let Pay::Interval(s, t) = e.pay {
            by.entry(e.tid).or_default().push((s, t));
        }
    }
    for v in by.values() {
        for w in v.windows(2) {
            if w[0].1 > w[1].1 {
                return false;
            }
        }
        let mut pts: BTreeSet<u64> = BTreeSet::new();
        for &(s, t) in v {
            if !pts.insert(s) || !pts.insert(t) {
                return false;
            }
        }
    }
    true
}

fn run(ctx: &mut Ctx, _idx: u64, rng: &mut Rng) -> R {
    let o = GenOpts {
        max_events: *rng.pick(&[3, 30, 150]),
        max_labels: *rng.pick(&[2, 6, 30]),
        text: Text::Plain,
        ..Default::default()
    };
    let mut t = gen_trace(rng, &o);
    table_safe(&mut t, rng);
    let u = if rng.chance(1, 10) {
        let mut u = gen_trace(rng, &o);
        table_safe(&mut u, rng);
        u
    } else {
        variant(&t, rng)
    };
    let (b, c) = (model::analyze(&t.evs), model::analyze(&u.evs));
    let dir = ctx.dir("c17");
    for (n, t) in [("base", &t), ("change", &u)] {
        let v = *rng.pick(&[8u32, 9, 9]);
        write_file(&dir, &format!("{n}.mm_profdata"), &enc::file(t, v, Enc::Simple, Paging::Library, rng));
    }
    let mut names = [if rng.chance(1, 3) { "base.mm_profdata" } else { "base" }.to_string(), if rng.chance(1, 3) { "change.mm_profdata" } else { "change" }.to_string()];
    // JSON summaries in place of profiles
    let mut js = 0;
    for i in 0..2 {
        if !rng.chance(1, 3) {
            continue;
        }
        js += 1;
        let n = ["base", "change"][i];
        let out = tools::tool(ctx, "summarize", &["summarize", n, "--json"], &dir)?;
        check!(out.ok(), "summarize summarize {n} --json failed: {}", out.brief());
        if rng.chance(1, 4) {
            // a tool for JSON files laid it out differently
            let f = dir.join(format!("{n}.json"));
            let j: serde_json::Value = match std::fs::read(&f).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
                Some(j) => j,
                None => return viol(format!("summarize {n} --json wrote something else")),
            };
            std::fs::write(&f, format!("\n{j:#}\n")).unwrap();
            ctx.count("json_inputs_laid_out_anew", 1);
        }
        match rng.below(3) {
            0 => {
                // away from the profile
                std::fs::create_dir_all(dir.join("js")).ok();
                std::fs::rename(dir.join(format!("{n}.json")), dir.join(format!("js/{n}.json"))).unwrap();
                names[i] = format!("js/{n}.json");
            }
            1 => {
                // the profile is gone
                std::fs::remove_file(dir.join(format!("{n}.mm_profdata"))).unwrap();
                names[i] = format!("{n}.json");
            }
            _ => names[i] = format!("{n}.json"),
        }
    }
    let mut swap = rng.chance(1, 3);
    let same = rng.chance(1, 20);
    if same {
        names[1] = names[0].clone();
        swap = false;
    }
    let c = if same { &b } else { &c };
    let (b, c, x, y) = if swap { (c, &b, &names[1], &names[0]) } else { (&b, c, &names[0], &names[1]) };
    let mut args: Vec<String> = vec!["diff".into(), x.clone(), y.clone()];
    let mut excl: Vec<String> = vec![];
    let json = rng.chance(1, 4) && !y.ends_with(".json");
    if json {
        args.insert(rng.range(1, 3) as usize, "--json".into());
    } else if rng.chance(1, 4) {
        let pool: Vec<&String> = b.stats.keys().chain(c.stats.keys()).chain(b.artifacts.keys()).collect();
        for _ in 0..rng.range(1, 3) {
            let e = if !pool.is_empty() && rng.chance(4, 5) {
                let l: Vec<char> = rng.pick(&pool).chars().collect();
                let i = rng.us(l.len());
                let j = (i + rng.range(1, 3) as usize).min(l.len());
                l[i..j].iter().collect()
            } else {
                "nowhere to be found".to_string()
            };
            if e.starts_with('-') {
                continue;
            }
            args.push(rng.pick(&["-e", "--exclude"]).to_string());
            args.push(e.clone());
            excl.push(e);
        }
    }
    let out = tools::tool(ctx, "summarize", &args, &dir)?;
    check!(out.ok(), "summarize {args:?} failed: {}", out.brief());
    let what = format!("summarize {}", args.join(" "));
    if json {
        let f = Path::new(y).with_extension("json");
        let j: serde_json::Value = match std::fs::read(dir.join(&f)).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
            Some(j) => j,
            None => return viol(format!("{what} wrote no valid {}", f.display())),
        };
        check_json(&j, b, c, &what)?;
        ctx.count("json_outputs", 1);
    } else {
        check_table(&out.out(), b, c, &excl, &what)?;
        ctx.count("tables", 1);
        ctx.count("tables_with_exclusions", !excl.is_empty() as u64);
    }
    ctx.count("json_inputs", js);
    ctx.count("swapped", swap as u64);
    let both = b.stats.keys().filter(|l| c.stats.contains_key(*l)).count();
    ctx.count("items_in_both", both as u64);
    ctx.count("items_vanished", (b.stats.len() - both) as u64);
    ctx.count("items_new", (c.stats.len() - both) as u64);
    let rich = both > 0 && both < b.stats.len() && both < c.stats.len();
    let mut h = Hasher64::new();
    h.add(t.key());
    h.add(u.key());
    h.bytes(args.join("\0").as_bytes());
    ctx.eval(if rich { Some(h.0) } else { None });
    ctx.sample(|| format!("{what}: {both} items in both, {} only in the base, {} only in the change", b.stats.len() - both, c.stats.len() - both));
    Ok(())
}

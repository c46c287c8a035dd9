//! C19: crox converts every interval faithfully to Chrome's trace format.
use super::*;
use crate::enc::{self, Enc, Paging};
use crate::tools;
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![prop("C19", 16000, run, "(profiles, options) that give at least three trace events")]
}

/// Threads with activity in windows of their own, so that some overlap and some do not.
fn windows(rng: &mut Rng) -> Trace {
    let n = *rng.pick(&[2u64, 4, 8, 20]);
    let n = rng.range(1, n);
    let horizon = *rng.pick(&[6u64, 30, 300, 50_000, 10_000_000, 1 << 40]);
    let tids = gen_tids(rng, n, false);
    let mut evs: Vec<(u64, Ev)> = vec![];
    for t in &tids {
        let a = rng.below(horizon);
        let len = rng.below((horizon / n).max(2)) + rng.below(2);
        for _ in 0..rng.range(1, 4) {
            let s = a + rng.below(len + 1);
            let e = s + rng.below(a + len - s + 1);
            let pay = match rng.below(6) {
                0 => Pay::Instant(s),
                1 => Pay::Integer(s),
                _ => Pay::Interval(s, e),
            };
            let ev = Ev { kind: rng.pick(&["Query", "Custom"]).to_string(), label: text1(rng, Text::Plain, 6), args: vec![], tid: *t, pay };
            evs.push((e, ev));
        }
    }
    evs.sort_by_key(|x| x.0);
    gen_meta(rng, evs.into_iter().map(|x| x.1).collect(), Text::Rich)
}

fn run(ctx: &mut Ctx, idx: u64, rng: &mut Rng) -> R {
    let dir = ctx.dir("c19");
    let n = if idx % 500 == 13 { 1 } else { *rng.pick(&[1u64, 1, 2, 3, 5]) };
    let mut pids = BTreeSet::new();
    let mut traces: Vec<Trace> = vec![];
    let mut args: Vec<String> = vec![];
    let sub = *rng.pick(&["d", ".", "sub dir"]);
    std::fs::create_dir_all(dir.join(sub)).ok();
    let mut use_dir = rng.chance(1, 3);
    let mut files = vec![];
    for i in 0..n {
        let mut t = if idx % 500 != 13 && rng.chance(1, 2) {
            windows(rng)
        } else {
            let o = GenOpts { max_events: if idx % 500 == 13 { 90_000 } else { *rng.pick(&[3, 30, 120]) }, max_threads: 8, kinds_text: rng.chance(1, 2), max_args: *rng.pick(&[3, 3, 14, 120]), ..Default::default() };
            gen_trace(rng, &o)
        };
        while !pids.insert(t.pid) {
            t.pid = rng.below(1 << 32) as u32;
        }
        if rng.chance(1, 4) {
            let opts = ["rustc ", "/usr/bin/rustc  ", "a --crate-type lib ", "é --crate-names x ", "rustc --no-", "rustc --my--crate-name z "];
            t.cmd = format!("{}--crate-name {} --edition=2021 src/lib.rs ", rng.pick(&opts), *rng.pick(&["core", "a_b", "x", "été", "___", "\"q\"", "--"]));
        }
        let in_dir = use_dir && rng.chance(2, 3);
        let b = enc::file(&t, *rng.pick(&[8u32, 9, 9]), Enc::Mixed, Paging::Library, rng);
        let name = format!("prof-{i}-x");
        if in_dir {
            let dot = *rng.pick(&["", ".v1"]);
            write_file(&dir.join(sub), &format!("{name}{dot}.mm_profdata"), &b);
        } else {
            // never in the directory that is searched
            std::fs::create_dir_all(dir.join("alone")).ok();
            write_file(&dir.join("alone"), &format!("{name}.mm_profdata"), &b);
            files.push(format!("alone/{name}{}", if rng.chance(1, 3) { ".mm_profdata" } else { "" }));
        }
        traces.push(t);
    }
    if use_dir && files.is_empty() || rng.chance(1, 2) && use_dir {
        // unrelated files in the directory
        write_file(&dir.join(sub), "notes.txt", b"hello");
        write_file(&dir.join(sub), "other.json", b"{}");
        write_file(&dir.join(sub), "mm_profdata", b"not a profile");
    }
    if files.is_empty() {
        use_dir = true;
    }
    rng.shuffle(&mut files);
    args.extend(files);
    if use_dir {
        args.push("--dir".into());
        args.push(sub.into());
    }
    let collapse = rng.chance(1, 2);
    if collapse {
        args.insert(if rng.chance(1, 2) { 0 } else { args.len() }, "--collapse-threads".into());
    }
    let mut min: u64 = 0;
    if rng.chance(1, 3) {
        let ds: Vec<u64> = traces.iter().flat_map(|t| &t.evs).filter_map(|e| if let Pay::Interval(s, t) = e.pay { Some((t - s) / 1000) } else { None }).collect();
        min = if !ds.is_empty() && rng.chance(3, 4) { (*rng.pick(&ds) + rng.below(3)).saturating_sub(1) } else { rng.logsize(1 << 40) };
        args.push("--minimum-duration".into());
        args.push(min.to_string());
    }
    if rng.chance(1, 3) {
        write_file(&dir, "chrome_profiler.json", &vec![b']'; 200_000]);
    }
    let out = tools::tool(ctx, "crox", &args, &dir)?;
    let what = format!("crox {}", args.join(" "));
    check!(out.ok(), "{what} failed: {}", out.brief());
    let j: serde_json::Value = match std::fs::read(dir.join("chrome_profiler.json")).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(j) => j,
        None => return viol(format!("{what} wrote no valid chrome_profiler.json")),
    };
    let Some(all) = j.as_array() else { return viol(format!("{what}: no array of events")) };
    let mut by: BTreeMap<u64, Vec<&serde_json::Value>> = BTreeMap::new();
    for x in all {
        let p = x["pid"].as_u64();
        check!(p.map(|p| pids.contains(&(p as u32))).unwrap_or(false), "{what}: event of an unknown process: {}", clip(&x.to_string(), 300));
        by.entry(p.unwrap()).or_default().push(x);
    }
    let mut h = Hasher64::new();
    let mut lanes_saved = 0;
    for t in &traces {
        h.add(t.key());
        let none = vec![];
        let got = by.get(&(t.pid as u64)).unwrap_or(&none);
        let what = format!("{what}: process {}", t.pid);
        let want: Vec<&Ev> = t.evs.iter().filter(|e| matches!(e.pay, Pay::Interval(s, e) if (e - s) / 1000 >= min)).collect();
        let xs: Vec<&&serde_json::Value> = got.iter().filter(|x| x["ph"] == "X").collect();
        let mut map: BTreeMap<u32, u64> = BTreeMap::new();
        for (x, e) in xs.iter().zip(&want) {
            let Pay::Interval(s, f) = e.pay else { continue };
            let ts = (t.start_ns + s) / 1000;
            let bad = |k: &str| viol(format!("{what}: {k} of {} is wrong, the event is {} (started at {ts} us)", clip(&x.to_string(), 400), show_ev(e)));
            if x["name"] != e.label.as_str() {
                return bad("name");
            }
            if x["cat"] != e.kind.as_str() {
                return bad("cat");
            }
            if x["ts"].as_u64() != Some(ts) {
                return bad("ts");
            }
            if x["dur"].as_u64() != Some((f - s) / 1000) {
                return bad("dur");
            }
            if e.args.is_empty() {
                if !(x["args"].is_null() || x["args"].as_object().map(|o| o.is_empty()).unwrap_or(false)) {
                    return bad("args");
                }
            } else {
                let w: serde_json::Map<String, serde_json::Value> = e.args.iter().enumerate().map(|(i, a)| (format!("arg{i}"), a.as_str().into())).collect();
                if x["args"].as_object() != Some(&w) {
                    return bad("args");
                }
            }
            let tid = x["tid"].as_u64().unwrap_or(u64::MAX);
            if !collapse && tid != e.tid as u64 {
                return bad("tid");
            }
            if *map.entry(e.tid).or_insert(tid) != tid {
                return viol(format!("{what}: thread {} is in lanes {} and {tid}", e.tid, map[&e.tid]));
            }
        }
        check!(xs.len() == want.len(), "{what}: {} complete events instead of {}", xs.len(), want.len());
        if collapse {
            lanes_saved += lanes(t, &map, &what)?;
        }
        // the process itself
        let idx: Vec<&&serde_json::Value> = got.iter().filter(|x| x["ph"] == "M" && x["name"] == "process_sort_index").collect();
        check!(idx.len() == 1 && idx[0]["args"]["sort_index"].as_u64() == Some(t.start_ns / 1000), "{what}: sort index {idx:?} instead of {}", t.start_ns / 1000);
        let names: Vec<&str> = got.iter().filter(|x| x["ph"] == "M" && x["name"] == "process_name").map(|x| x["args"]["name"].as_str().unwrap_or("?")).collect();
        let want: Vec<&str> = t.cmd.split_once(" --crate-name ").map(|(_, r)| r.split(' ').next().unwrap()).into_iter().collect();
        check!(names == want, "{what}: process names {names:?} instead of {want:?} (command line {})", show(&t.cmd));
        ctx.count("complete_events", xs.len() as u64);
        ctx.count("named_processes", want.len() as u64);
    }
    ctx.maxc("events_in_a_profile", traces.iter().map(|t| t.evs.len() as u64).max().unwrap_or(0));
    ctx.count("profiles", traces.len() as u64);
    ctx.count("collapsed_runs", collapse as u64);
    ctx.count("lanes_saved_by_collapsing", lanes_saved);
    ctx.count("runs_with_minimum_duration", (min > 0) as u64);
    ctx.count("runs_with_dir", use_dir as u64);
    h.bytes(args.join("\0").as_bytes());
    ctx.eval(if all.len() >= traces.len() + 3 { Some(h.0) } else { None });
    ctx.sample(|| format!("{what}: {} trace events of {} processes", all.len(), traces.len()));
    Ok(())
}

/// Judges the assignment of threads to lanes; returns how many lanes were saved.
fn lanes(t: &Trace, map: &BTreeMap<u32, u64>, what: &str) -> R<u64> {
    let mut act: BTreeMap<u32, (u64, u64)> = BTreeMap::new();
    for e in &t.evs {
        if let (Some(s), Some(f)) = (e.pay.start(), e.pay.end()) {
            let x = act.entry(e.tid).or_insert((s, f));
            *x = (x.0.min(s), x.1.max(f));
        }
    }
    let v: Vec<(&u32, &u64)> = map.iter().collect();
    for (i, (a, la)) in v.iter().enumerate() {
        for (b, lb) in &v[i + 1..] {
            if la == lb {
                let (x, y) = (act[a], act[b]);
                let disjoint = x.1 <= y.0 || y.1 <= x.0;
                check!(disjoint, "{what}: threads {a} {x:?} and {b} {y:?} overlap but share lane {la}");
            }
        }
    }
    let used: BTreeSet<u64> = map.values().copied().collect();
    let most = act.values().map(|x| act.values().filter(|y| y.0 <= x.0 && x.0 <= y.1).count()).max().unwrap_or(0);
    check!(used.len() <= most, "{what}: {} lanes for at most {most} threads active at once: {act:?} in {map:?}", used.len());
    Ok((map.len() - used.len()) as u64)
}

//! C16: the summarize table and JSON show exactly the analysis results.
use super::*;
use crate::enc::{self, Enc, Paging};
use crate::{model, tools};
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![prop("C16", 9600, run, "(profile, options) pairs that differ and list at least three items")]
}

/// Labels that do not break the table when printed.
pub fn table_text(rng: &mut Rng) -> String {
    // now and then far wider than any terminal
    let n = if rng.chance(1, 30) { rng.range(100, 2000) } else { rng.range(1, 24) } as usize;
    let mut s: String = text_len(rng, Text::Plain, n);
    if n > 2 && rng.chance(1, 2) {
        let extra = *rng.pick(&["::", "<", ">", " ", ", ", "(x)", "é", "漢字", "&", "%", "'", "\"", "$", "{}", "-", "+", "/", "\\", "#", "=", "*"]);
        let at = 1 + rng.us(n - 1);
        s.insert_str(at, extra);
    }
    s
}

/// Replaces labels (and kinds and arguments) by table-safe ones, keeping equal ones equal.
pub fn table_safe(t: &mut Trace, rng: &mut Rng) {
    let mut map: BTreeMap<String, String> = BTreeMap::new();
    let mut used = std::collections::BTreeSet::new();
    for e in &mut t.evs {
        if !map.contains_key(&e.label) {
            let mut s = table_text(rng);
            while !used.insert(s.clone()) {
                s.push('x');
            }
            map.insert(e.label.clone(), s);
        }
        e.label = map[&e.label].clone();
    }
}

pub struct Doc {
    pub tables: Vec<Vec<Vec<String>>>,
    pub lines: Vec<String>,
}

pub fn parse_tables(out: &str) -> Doc {
    let mut d = Doc { tables: vec![], lines: vec![] };
    let mut cur: Vec<Vec<String>> = Vec::new();
    let mut inside = false;
    for l in out.lines() {
        if l.starts_with('+') || l.starts_with('|') {
            if !inside {
                inside = true;
            }
            if l.starts_with('|') {
                let c: Vec<&str> = l.split('|').collect();
                cur.push(c[1..c.len() - 1].iter().map(|s| s.trim().to_string()).collect());
            }
        } else {
            if inside {
                d.tables.push(std::mem::take(&mut cur));
                inside = false;
            }
            if !l.trim().is_empty() {
                d.lines.push(l.to_string());
            }
        }
    }
    if inside {
        d.tables.push(cur);
    }
    d
}

pub fn pct_close(got: &str, want: f64, digits: i32) -> bool {
    if want.is_nan() {
        return got == "NaN" || got == "+NaN" || got == "-NaN";
    }
    if want.is_infinite() {
        return got == if want > 0.0 { "+inf" } else { "-inf" } || (want > 0.0 && got == "inf");
    }
    match got.parse::<f64>() {
        Ok(g) => {
            let dec = got.rsplit_once('.').map(|x| x.1.len()).unwrap_or(0);
            dec == digits as usize && (g - want).abs() <= 0.502 * 10f64.powi(-digits) + want.abs() * 1e-12
        }
        Err(_) => false,
    }
}

pub fn json_ns(v: &serde_json::Value) -> Option<u64> {
    Some(v.get("secs")?.as_u64()? * 1_000_000_000 + v.get("nanos")?.as_u64()?)
}

fn run(ctx: &mut Ctx, _idx: u64, rng: &mut Rng) -> R {
    let o = GenOpts {
        max_events: *rng.pick(&[4, 40, 200]),
        max_labels: *rng.pick(&[2, 5, 30]),
        text: Text::Plain,
        ..Default::default()
    };
    let mut t = gen_trace(rng, &o);
    table_safe(&mut t, rng);
    if rng.chance(1, 3) {
        // few kinds only, so that columns appear and vanish independently
        let keep: Vec<&str> = (0..rng.range(1, 3)).map(|_| *rng.pick(&["Query", "QueryBlocked", "IncrementalLoadResult", "IncrementalResultHashing", "GenericActivity"])).collect();
        for e in &mut t.evs {
            match e.pay {
                Pay::Interval(..) => e.kind = rng.pick(&keep).to_string(),
                Pay::Instant(_) if rng.chance(1, 2) => e.kind = "QueryCacheHit".into(),
                Pay::Instant(_) => e.kind = "Query".into(),
                _ => {}
            }
        }
    }
    if rng.chance(1, 3) {
        // one kind per label: the data of one column belongs to few items
        let mut m: BTreeMap<String, String> = BTreeMap::new();
        for e in &mut t.evs {
            if let Pay::Interval(..) = e.pay {
                e.kind = m.entry(e.label.clone()).or_insert(e.kind.clone()).clone();
            }
        }
    }
    let exact = rng.chance(1, 8);
    if exact {
        t.evs = shares(rng);
    }
    let m = model::analyze(&t.evs);
    let dir = ctx.dir("c16");
    let v = *rng.pick(&[8u32, 9, 9]);
    write_file(&dir, "in.mm_profdata", &enc::file(&t, v, Enc::Simple, Paging::Library, rng));
    let json = rng.chance(1, 4);
    let mut args: Vec<String> = vec!["summarize".into()];
    let pct = |s: u64| s as f64 / m.total as f64 * 100.0;
    let mut filter = 0.0f64;
    // shares that every reasonable computation finds exactly
    let dyadic: Vec<f64> = m.stats.values().map(|s| s.self_time).filter(|s| m.total > 0 && *s > 0 && m.total < 1 << 40 && (*s << 4) % m.total == 0).map(pct).collect();
    if !dyadic.is_empty() && (exact || rng.chance(1, 2)) {
        let p = *rng.pick(&dyadic);
        filter = p;
        args.push(rng.pick(&["-p", "--percent-above"]).to_string());
        args.push(format!("{p}"));
        ctx.count("limits_met_exactly", 1);
    } else if rng.chance(1, 2) {
        let all: Vec<f64> = m.stats.values().map(|s| pct(s.self_time)).filter(|p| p.is_finite()).collect();
        let mut p: f64 = match rng.below(3) {
            0 => rng.below(101) as f64,
            1 => rng.below(100_000) as f64 / 1000.0,
            _ if !all.is_empty() => {
                let p = *rng.pick(&all);
                let p = (p + (rng.below(3) as f64 - 1.0) * 0.01).clamp(0.0, 100.0);
                format!("{p:.6}").parse().unwrap()
            }
            _ => 50.0,
        };
        // stay off values whose comparison depends on rounding
        while all.iter().any(|x| (x - p).abs() < 1e-7) && p > 0.0 {
            p = (p * 0.99).max(0.0);
        }
        if m.total == 0 || all.iter().any(|x| (x - p).abs() < 1e-7) {
            p = 0.0;
        }
        filter = p;
        args.push(rng.pick(&["-p", "--percent-above"]).to_string());
        args.push(format!("{p}"));
    }
    if json {
        args.push("--json".into());
        if rng.chance(1, 2) {
            // leftovers of an earlier, longer run
            write_file(&dir, "in.json", &vec![b'}'; 50_000]);
        }
    }
    let at = rng.range(1, args.len() as u64) as usize;
    // the file argument may stand anywhere but between an option and its value
    let at = if at > 1 && args[at - 1].starts_with("-p") | args[at - 1].starts_with("--p") { at - 1 } else { at };
    args.insert(at, if rng.chance(1, 4) { "in.mm_profdata".into() } else { "in".into() });
    let out = tools::tool(ctx, "summarize", &args, &dir)?;
    check!(out.ok(), "summarize {args:?} failed: {}", out.brief());
    let what = format!("summarize {}", args.join(" "));
    if json {
        check!(!out.out().contains('|'), "{what} prints a table as well: {}", show(&out.out()));
        let j: serde_json::Value = match std::fs::read(dir.join("in.json")).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
            Some(j) => j,
            None => return viol(format!("{what} wrote no valid in.json")),
        };
        same_json(&j, &m, &what)?;
        ctx.count("json_outputs", 1);
    } else {
        table(&out.out(), &m, filter, &what)?;
        ctx.count("tables", 1);
        if filter > 0.0 {
            ctx.count("filtered_tables", 1);
        }
    }
    if rng.chance(1, 8) {
        // no share of the whole lies outside 0 to 100 percent
        let bad = match rng.below(6) {
            0 => "100.0000001".to_string(),
            1 => "-0.0000001".into(),
            2 => "inf".into(),
            3 => "-inf".into(),
            4 => format!("{}", 100.001 + rng.logsize(1 << 40) as f64 / 8.0),
            _ => format!("-{}", 0.001 + rng.logsize(1 << 40) as f64 / 8.0),
        };
        let args = vec!["summarize".to_string(), "in".into(), format!("--percent-above={bad}")];
        let out = tools::tool(ctx, "summarize", &args, &dir)?;
        check!(!out.ok() && !out.panicked(), "summarize {args:?} does not refuse the limit: {}", out.brief());
        check!(out.code == Some(1) && !out.err().trim().is_empty(), "summarize {args:?} does not say why it refuses the limit: {}", out.brief());
        check!(!out.out().contains('|'), "summarize {args:?} refuses the limit but prints a table: {}", show(&out.out()));
        ctx.count("limits_refused", 1);
    }
    ctx.count("items", m.stats.len() as u64);
    ctx.maxc("most_items", m.stats.len() as u64);
    let mut h = Hasher64::new();
    h.add(t.key());
    h.bytes(args.join("\0").as_bytes());
    ctx.eval(if m.stats.len() >= 3 { Some(h.0) } else { None });
    ctx.sample(|| format!("{what}: {} items; {}", m.stats.len(), t.brief()));
    Ok(())
}

/// Events whose self times are sixteenths of the total time.
fn shares(rng: &mut Rng) -> Vec<Ev> {
    let unit = rng.logsize(1 << 30).max(1);
    let (mut left, mut t, mut i, mut v) = (16, 0, 0, vec![]);
    while left > 0 {
        let n = rng.range(1, left.min(8));
        left -= n;
        v.push(Ev { kind: "Query".into(), label: format!("item {i}"), args: vec![], tid: 3, pay: Pay::Interval(t, t + n * unit) });
        t += n * unit;
        i += 1;
    }
    if rng.chance(1, 2) {
        v.push(Ev { kind: "GenericActivity".into(), label: "all".into(), args: vec![], tid: 3, pay: Pay::Interval(0, t) });
    }
    v
}

pub fn same_json(j: &serde_json::Value, m: &model::Analysis, what: &str) -> R {
    let none = vec![];
    let q = j["query_data"].as_array().unwrap_or(&none);
    let mut seen = BTreeMap::new();
    for x in q {
        let d = |k: &str| json_ns(&x[k]);
        let n = |k: &str| x[k].as_u64();
        let got = (|| {
            Some(model::Stat {
                time: d("time")?,
                self_time: d("self_time")?,
                misses: n("number_of_cache_misses")?,
                hits: n("number_of_cache_hits")?,
                count: n("invocation_count")?,
                blocked: d("blocked_time")?,
                load: d("incremental_load_time")?,
                hashing: d("incremental_hashing_time")?,
            })
        })();
        match (x["label"].as_str(), got) {
            (Some(l), Some(g)) => check!(seen.insert(l.to_string(), g).is_none(), "{what}: {} twice", show(l)),
            _ => return viol(format!("{what}: malformed item {x}")),
        }
    }
    for (l, w) in &m.stats {
        check!(seen.get(l) == Some(w), "{what}: item {} is {:?} instead of {w:?}", show(l), seen.get(l));
    }
    check!(seen.len() == m.stats.len(), "{what}: {} items instead of {}", seen.len(), m.stats.len());
    let mut arts = BTreeMap::new();
    for x in j["artifact_sizes"].as_array().unwrap_or(&none) {
        match (x["label"].as_str(), x["value"].as_u64()) {
            (Some(l), Some(v)) => check!(arts.insert(l.to_string(), v).is_none(), "{what}: artifact {} twice", show(l)),
            _ => return viol(format!("{what}: malformed artifact {x}")),
        }
    }
    check!(arts == m.artifacts, "{what}: artifacts {arts:?} instead of {:?}", m.artifacts);
    check!(json_ns(&j["total_time"]) == Some(m.total), "{what}: total time {} instead of {}", j["total_time"], m.total);
    Ok(())
}

fn table(out: &str, m: &model::Analysis, filter: f64, what: &str) -> R {
    let d = parse_tables(out);
    check!(d.tables.len() == 2 && !d.tables[0].is_empty() && !d.tables[1].is_empty(), "{what}: {} tables in {}", d.tables.len(), show(out));
    let (hits, blocked, load, hashing) = (
        m.stats.values().any(|s| s.hits > 0),
        m.stats.values().any(|s| s.blocked > 0),
        m.stats.values().any(|s| s.load > 0),
        m.stats.values().any(|s| s.hashing > 0),
    );
    let mut cols = vec!["Item", "Self time", "% of total time", "Time", "Item count"];
    for (c, on) in [("Cache hits", hits), ("Blocked time", blocked), ("Incremental load time", load), ("Incremental result hashing time", hashing)] {
        if on {
            cols.push(c);
        }
    }
    check!(d.tables[0][0] == cols, "{what}: the columns are {:?} instead of {cols:?}", d.tables[0][0]);
    let rows = &d.tables[0][1..];
    let mut last: Option<u64> = None;
    let mut seen = std::collections::BTreeSet::new();
    let mut sum = 0.0;
    for r in rows {
        check!(r.len() == cols.len(), "{what}: row {r:?} has {} cells", r.len());
        let s = match m.stats.get(&r[0]) {
            Some(s) => s,
            None => return viol(format!("{what}: row {r:?} is no item of the profile")),
        };
        check!(seen.insert(r[0].clone()), "{what}: item {} is listed twice", show(&r[0]));
        check!(last.map(|l| l >= s.self_time).unwrap_or(true), "{what}: item {} with self time {} follows one with {last:?}", show(&r[0]), s.self_time);
        last = Some(s.self_time);
        let f = |n: u64| format!("{:.2?}", Duration::from_nanos(n));
        let p = s.self_time as f64 / m.total as f64 * 100.0;
        sum += p;
        check!(m.total == 0 || pct_close(&r[2], p, 3), "{what}: item {} shows {}% instead of {p}%", show(&r[0]), r[2]);
        check!(m.total == 0 || p >= filter, "{what}: item {} with {p}% is shown", show(&r[0]));
        let mut want = vec![r[0].clone(), f(s.self_time), r[2].clone(), f(s.time), s.count.to_string()];
        for (c, on) in [(s.hits.to_string(), hits), (f(s.blocked), blocked), (f(s.load), load), (f(s.hashing), hashing)] {
            if on {
                want.push(c);
            }
        }
        check!(r == &want, "{what}: row {r:?} should be {want:?}");
    }
    for (l, s) in &m.stats {
        let p = s.self_time as f64 / m.total as f64 * 100.0;
        check!(seen.contains(l) || (p < filter), "{what}: item {} with {p}% is missing", show(l));
    }
    let tot = format!("Total cpu time: {:?}", Duration::from_nanos(m.total));
    check!(d.lines.iter().any(|l| l == &tot), "{what}: no line {tot:?} in {:?}", d.lines);
    let acc: Vec<&String> = d.lines.iter().filter(|l| l.starts_with("Filtered results account for ")).collect();
    if filter != 0.0 {
        check!(acc.len() == 1, "{what}: {} lines about the filtered share in {:?}", acc.len(), d.lines);
        let n = acc[0].trim_start_matches("Filtered results account for ").split('%').next().unwrap();
        check!(m.total == 0 || pct_close(n, sum, 3), "{what}: filtered results account for {n}% instead of {sum}%");
    } else {
        check!(acc.is_empty(), "{what}: a share of filtered results without a filter: {acc:?}");
    }
    check!(d.tables[1][0] == ["Item", "Artifact Size"], "{what}: artifact table {:?}", d.tables[1][0]);
    let mut arts = BTreeMap::new();
    for r in &d.tables[1][1..] {
        check!(r.len() == 2 && arts.insert(r[0].clone(), r[1].clone()).is_none(), "{what}: artifact row {r:?}");
    }
    let want: BTreeMap<String, String> = m.artifacts.iter().map(|(l, v)| (l.clone(), format!("{v} bytes"))).collect();
    check!(arts == want, "{what}: artifacts {arts:?} instead of {want:?}");
    Ok(())
}

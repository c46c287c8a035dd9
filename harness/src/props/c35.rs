//! C35: the work done grows in proportion to the profile. Instructions are counted by cachegrind.
use super::*;
use crate::enc::{self, Enc, Paging};
use crate::tools;
use analyzeme::collapse_stacks;
use measureme::{EventIdBuilder, PageTag, Profiler, SerializationSinkBuilder, StringComponent, StringId};
use std::process::Command;
use std::sync::Arc;

/// Instructions per unit may grow this many times while the profile grows `STEP` times.
const LIMIT: f64 = 4.0;
const STEP: usize = 16;

const SHAPES: &[&str] = &["flat", "labels", "trees", "wide", "deep", "threads", "lanes", "mixed", "blocked", "artifacts", "longtext", "args", "virtual", "crumbs", "parts"];
/// Reading and tools, for every shape.
const OPS: &[&str] = &[
    "open", "iter", "rev", "both", "full", "fullrev", "skip", "analysis", "collapse", "mmview", "mmview-t", "crox", "crox-collapse", "crox-min", "stack_collapse",
    "flamegraph", "summarize", "summarize-json", "diff", "diff-json", "aggregate", "mmedit",
];
/// Recording.
const RECS: &[&str] = &["events", "strings", "texts", "components", "idargs", "virtuals", "bulk", "sink", "bytes", "big", "threads", "std", "memory"];

pub fn props() -> Vec<Prop> {
    vec![prop("C35", (SHAPES.len() * OPS.len() + RECS.len()) as u64, run, "(workload, operation, size) combinations whose instructions were counted at three sizes")]
}

fn shape(rng: &mut Rng, name: &str, n: usize) -> (Trace, Enc, Paging) {
    let mut evs = vec![];
    let mut e = |kind: &str, label: String, args: Vec<String>, tid: u32, pay: Pay| evs.push(Ev { kind: kind.to_string(), label, args, tid, pay });
    let (mut enc, mut paging) = (Enc::Simple, Paging::Library);
    let q = "Query";
    let step = 2000u64;
    match name {
        "flat" => {
            for i in 0..n as u64 {
                e(q, format!("l{}", i % 20), vec![], 1, Pay::Interval(i * step, i * step + 1500));
            }
        }
        "labels" => {
            for i in 0..n as u64 {
                e(q, format!("label_{i}"), vec![format!("arg{i}")], 1, Pay::Interval(i * step, i * step + 1000 + i % 700));
            }
        }
        "trees" => {
            let mut i = 0;
            while i < n {
                let d = (2 + (i / 7) % 19).min(n - i);
                let t = i as u64 * step;
                for k in (0..d as u64).rev() {
                    e(q, format!("f{k}"), vec![], 3, Pay::Interval(t + k * 10, t + step - k * 10));
                }
                i += d;
            }
        }
        "wide" => {
            for i in 1..n as u64 {
                e(q, format!("l{}", i % 30), vec![], 1, Pay::Interval(i * step, i * step + 1500));
            }
            e(q, "root".to_string(), vec![], 1, Pay::Interval(0, n as u64 * step + 5));
        }
        "deep" => {
            for i in (0..n as u64).rev() {
                e(q, format!("l{}", i % 10), vec![], 1, Pay::Interval(i * 100, (3 * n as u64 - i) * 100));
            }
        }
        // many threads, one after another
        "threads" => {
            for i in 0..n as u64 {
                e(q, format!("l{}", i % 20), vec![], 5 + (i / 8) as u32, Pay::Interval(i * step, i * step + 1500));
            }
        }
        // some threads at the same time
        "lanes" => {
            for i in 0..n as u64 {
                e(q, format!("l{}", i % 20), vec![], (i % 9) as u32, Pay::Interval(i / 9 * step, i / 9 * step + 1500));
            }
        }
        "mixed" => {
            for i in 0..n as u64 {
                let k = *rng.pick(&["Query", "GenericActivity", "QueryCacheHit", "Other"]);
                let pay = match rng.below(3) {
                    0 => Pay::Interval(i * step, i * step + 1500),
                    1 => Pay::Instant(i * step + 7),
                    _ => Pay::Integer(i),
                };
                e(k, format!("l{}", i % 50), vec![format!("a{}", i % 3)], (i % 3) as u32, pay);
            }
        }
        "blocked" => {
            let kinds = ["QueryBlocked", "IncrementalLoadResult", "IncrementalResultHashing", "QueryCacheHit"];
            for i in 0..n as u64 {
                let t = i / 2 * step;
                if i % 2 == 0 {
                    let k = kinds[(i / 2 % 4) as usize];
                    let pay = if k == "QueryCacheHit" { Pay::Instant(t + 20) } else { Pay::Interval(t + 10, t + 500) };
                    e(k, format!("l{}", i / 2 % 20), vec![], 1, pay);
                } else {
                    e(q, format!("l{}", i / 2 % 20), vec![], 1, Pay::Interval(t, t + 1500));
                }
            }
        }
        "artifacts" => {
            for i in 0..n as u64 {
                e("ArtifactSize", format!("artifact_{i}"), vec![], 1, Pay::Integer(i * 10));
            }
        }
        "longtext" => {
            e(q, "x".repeat(n * 16), vec![], 1, Pay::Interval(0, 5000));
            e(q, format!("{}é", "é".repeat(n * 8)), vec![], 1, Pay::Interval(6000, 9000));
        }
        "args" => {
            e(q, "l".to_string(), (0..n).map(|i| format!("argument {i}")).collect(), 1, Pay::Interval(0, 5000));
        }
        "virtual" => {
            enc = Enc::Mixed;
            for i in 0..n as u64 {
                e(q, format!("label_{i}"), vec![], 1, Pay::Interval(i * step, i * step + 1500));
            }
        }
        "crumbs" => {
            paging = Paging::Bytes;
            for i in 0..n as u64 / 8 + 1 {
                e(q, format!("l{}", i % 40), vec![], 1, Pay::Interval(i * step, i * step + 1500));
            }
        }
        "parts" => {
            // one string of many references: every argument a string of its own
            e(q, "l".to_string(), (0..n).map(|i| format!("{}", i % 10)).collect(), 1, Pay::Interval(0, 5000));
            e(q, "m".to_string(), (0..n).map(|i| format!("{}", i % 7)).collect(), 1, Pay::Interval(6000, 9000));
        }
        _ => unreachable!(),
    }
    (Trace { evs, start_ns: 1_600_000_000_000_000_000, pid: 77, cmd: "rustc --crate-name x".to_string() }, enc, paging)
}

/// helper: c35 OP FILE-or-STEM N
pub fn helper(args: &[String]) {
    let (op, path, n) = (args[0].as_str(), PathBuf::from(&args[1]), args[2].parse::<usize>().unwrap());
    if RECS.contains(&op) {
        record(op, path, n);
        return;
    }
    let pd = ProfilingData::new(&path).unwrap();
    let mut sum = 0usize;
    match op {
        "open" => {}
        "iter" => sum += pd.iter().map(|e| pd.to_full_event(&e).label.len()).sum::<usize>(),
        "rev" => sum += pd.iter().rev().map(|e| pd.to_full_event(&e).label.len()).sum::<usize>(),
        "both" => {
            let mut i = pd.iter();
            while let Some(a) = i.next() {
                sum += a.thread_id as usize + i.len();
                if let Some(b) = i.next_back() {
                    sum += b.thread_id as usize;
                }
            }
        }
        "full" => sum += pd.iter_full().map(|e| e.label.len() + e.additional_data.len()).sum::<usize>(),
        "fullrev" => sum += pd.iter_full().rev().map(|e| e.label.len() + e.additional_data.len()).sum::<usize>(),
        "skip" => sum += pd.iter().skip(pd.num_events() / 2).step_by(3).map(|e| e.thread_id as usize).sum::<usize>() + pd.iter_full().last().map_or(0, |e| e.label.len()),
        "analysis" => sum += pd.perform_analysis().query_data.len(),
        "collapse" => sum += collapse_stacks(&pd).len(),
        _ => panic!("{op}"),
    }
    println!("{sum}");
}

fn record(op: &str, path: PathBuf, n: usize) {
    if op == "sink" || op == "memory" || op == "std" {
        let b = if op == "memory" {
            SerializationSinkBuilder::new_in_memory()
        } else {
            SerializationSinkBuilder::new_from_file(std::fs::File::create(path).unwrap()).unwrap()
        };
        let s = b.new_sink(PageTag::Events);
        let mut sum = 0;
        for i in 0..n {
            if op == "std" {
                std::io::Write::write_all(&mut s.as_std_write(), &[i as u8; 40]).unwrap();
            } else {
                sum += s.write_atomic(40 + i % 100, |b| b.fill(i as u8)).as_usize();
            }
        }
        if op == "memory" {
            sum += s.into_bytes().len();
        }
        println!("{sum}");
        return;
    }
    let p = Arc::new(Profiler::new(path).unwrap());
    let kind = p.alloc_string("Query");
    let label = p.alloc_string("label");
    let id = measureme::EventId::from_label(label);
    let mut s = String::new();
    match op {
        "events" => {
            for i in 0..n {
                match i % 3 {
                    0 => drop(p.start_recording_interval_event(kind, id, 1)),
                    1 => p.record_instant_event(kind, id, 1),
                    _ => p.record_integer_event(kind, id, 1, i as u64),
                }
            }
        }
        "strings" => {
            for _ in 0..n {
                p.alloc_string("a string");
            }
        }
        "texts" => {
            for i in 0..n {
                s.clear();
                std::fmt::Write::write_fmt(&mut s, format_args!("text {i}")).unwrap();
                p.record_instant_event(kind, measureme::EventId::from_label(p.alloc_string(&s[..])), 1);
            }
        }
        "components" => {
            let ids: Vec<StringId> = (0..10).map(|_| p.alloc_string("part")).collect();
            let parts: Vec<StringComponent> = (0..n).map(|i| if i % 2 == 0 { StringComponent::Ref(ids[i % 10]) } else { StringComponent::Value("v") }).collect();
            p.alloc_string(&parts[..]);
        }
        "idargs" => {
            let b = EventIdBuilder::new(&p);
            let ids: Vec<StringId> = (0..n).map(|_| label).collect();
            b.from_label_and_args(label, &ids);
            for _ in 0..n {
                b.from_label_and_arg(label, kind);
            }
        }
        "virtuals" => {
            for i in 0..n {
                p.map_virtual_to_concrete_string(StringId::new_virtual(i as u64), label);
            }
        }
        "bulk" => {
            let v: Vec<StringId> = (0..n).map(|i| StringId::new_virtual(i as u64)).collect();
            p.bulk_map_virtual_to_single_concrete_string(v.into_iter(), label);
        }
        "bytes" => {
            for i in 0..n / 8 {
                s.clear();
                s.extend(std::iter::repeat('y').take(100 + i % 400));
                p.alloc_string(&s[..]);
            }
        }
        "big" => {
            s.extend(std::iter::repeat('z').take(n * 64));
            p.alloc_string(&s[..]);
        }
        "threads" => {
            let t: Vec<_> = (0..3u32)
                .map(|t| {
                    let p = p.clone();
                    std::thread::spawn(move || {
                        for i in 0..n / 3 {
                            p.record_integer_event(kind, id, t, i as u64);
                        }
                    })
                })
                .collect();
            t.into_iter().for_each(|t| t.join().unwrap());
        }
        _ => panic!("{op}"),
    }
}

/// Runs `c` under cachegrind and returns the number of instructions.
fn instructions(ctx: &mut Ctx, exe: &Path, args: &[String], cwd: &Path, what: &str) -> R<u64> {
    let mut c = Command::new("valgrind");
    c.args(["--tool=cachegrind", "--vgdb=no", "--cache-sim=no", "--branch-sim=no", "--cachegrind-out-file=/dev/null", "--log-file=counted", "--main-stacksize=8388608"]);
    c.arg(exe).args(args).current_dir(cwd).env_remove("LD_PRELOAD").env("RUST_BACKTRACE", "0");
    ctx.count("counted_runs", 1);
    let o = tools::run_cmd(c, what)?;
    check!(o.ok(), "{what} failed: {}", o.brief());
    let log = std::fs::read_to_string(cwd.join("counted")).unwrap_or_default();
    let n = log.lines().find_map(|l| l.split("I refs:").nth(1)).map(|x| x.trim().replace(',', ""));
    let n: u64 = n.and_then(|x| x.parse().ok()).unwrap_or_else(|| panic!("cachegrind did not count: {log}"));
    ctx.count("instructions", n);
    Ok(n)
}

fn run(ctx: &mut Ctx, idx: u64, rng: &mut Rng) -> R {
    let all = (SHAPES.len() * OPS.len() + RECS.len()) as u64;
    let k = (idx * 101 % all) as usize;
    let base = match ctx.tier {
        Tier::Quick => 1500,
        Tier::Thorough => *rng.pick(&[700usize, 1000, 2000, 4000]) + rng.us(500),
    };
    // the first runs pay for starting up
    let sizes = [8, base, base * STEP];
    let dir = ctx.dir("c35");
    let mut cost = [0u64; 3];
    let mut bytes = 0;
    let (shape_name, op) = if k < RECS.len() { ("recording", RECS[k]) } else { (SHAPES[(k - RECS.len()) / OPS.len()], OPS[(k - RECS.len()) % OPS.len()]) };
    // the paths themselves are as long as the stack is deep, and an argument list is part of each line
    if shape_name == "deep" && ["collapse", "stack_collapse", "flamegraph"].contains(&op) {
        return Ok(());
    }
    // made for single-threaded runs
    if op == "aggregate" && ["threads", "lanes", "mixed"].contains(&shape_name) {
        return Ok(());
    }
    let seed = rng.next();
    for (i, &n) in sizes.iter().enumerate() {
        let what = format!("{op} on {shape_name} of size {n}");
        if shape_name == "recording" {
            let a = ["helper", "c35", op, "r", &n.to_string()].map(String::from);
            let exe = ctx.exe.clone();
            cost[i] = instructions(ctx, &exe, &a, &dir, &what)?;
            bytes = std::fs::metadata(dir.join(if op == "sink" || op == "std" { "r" } else { "r.mm_profdata" })).map_or(0, |m| m.len());
            continue;
        }
        let mut r = Rng::new(seed);
        let (t, enc, paging) = shape(&mut r, shape_name, n);
        let b = enc::file(&t, if seed % 4 == 0 { 8 } else { 9 }, enc, paging, &mut r);
        bytes = b.len() as u64;
        write_file(&dir, "p.mm_profdata", &b);
        if op == "diff" || op == "diff-json" || op == "aggregate" {
            write_file(&dir, "p2.mm_profdata", &b);
        }
        let line: (&str, &[&str]) = match op {
            "mmview" => ("mmview", &["p"]),
            "mmview-t" => ("mmview", &["-t", "1", "p"]),
            "crox" => ("crox", &["p"]),
            "crox-collapse" => ("crox", &["--collapse-threads", "p"]),
            "crox-min" => ("crox", &["--minimum-duration", "1", "p"]),
            "stack_collapse" => ("stack_collapse", &["p"]),
            "flamegraph" => ("flamegraph", &["p"]),
            "summarize" => ("summarize", &["summarize", "p"]),
            "summarize-json" => ("summarize", &["summarize", "--json", "p"]),
            "diff" => ("summarize", &["diff", "p", "p2"]),
            "diff-json" => ("summarize", &["diff", "--json", "p", "p2"]),
            "aggregate" => ("summarize", &["aggregate", "p", "p2"]),
            "mmedit" => ("mmedit", &["truncate", "p.mm_profdata"]),
            _ => ("", &[]),
        };
        if op == "flamegraph" && shape_name == "artifacts" {
            // nothing to draw
            return Ok(());
        }
        cost[i] = if line.0.is_empty() {
            let a = ["helper", "c35", op, "p", &n.to_string()].map(String::from);
            let exe = ctx.exe.clone();
            instructions(ctx, &exe, &a, &dir, &what)?
        } else {
            let a: Vec<String> = line.1.iter().map(|s| s.to_string()).collect();
            let exe = ctx.tools.join(line.0);
            instructions(ctx, &exe, &a, &dir, &what)?
        };
    }
    let per = |a: usize, b: usize| cost[b].saturating_sub(cost[a]) as f64 / (sizes[b] - sizes[a]) as f64;
    let (small, large) = (per(0, 1), per(1, 2));
    ctx.maxc("size", sizes[2] as u64);
    ctx.maxc("growth_percent", (large / small.max(20.0) * 100.0) as u64);
    ctx.maxc("bytes", bytes);
    if std::env::var_os("MMV_SHOW").is_some() {
        eprintln!("{op:15} {shape_name:10} {:8.1} {:8.1}  x{:.2}  {:?}", small, large, large / small.max(20.0), cost);
    }
    // a few instructions more or less per unit are no trend
    check!(
        large <= LIMIT * small.max(20.0),
        "{op} on {shape_name}: {small:.0} instructions per unit up to a size of {}, {large:.0} from there to {} ({} instructions in all)",
        sizes[1], sizes[2], cost[2]
    );
    ctx.sample(|| format!("{op} on {shape_name}: {small:.0} instructions per unit up to size {}, {large:.0} beyond, up to {}", sizes[1], sizes[2]));
    ctx.eval(Some(mix(k as u64 * 65536 + base as u64)));
    Ok(())
}

//! C24: storage faults are either transparent or reported, never silent.
use super::*;
use crate::enc::{self, Enc, Paging};
use crate::{refdec, shim, tools};
use measureme::{PageTag, Profiler, SerializationSinkBuilder, StringComponent, StringId, StringTableBuilder};
use std::ffi::OsStr;
use std::io::Write;
use std::process::Command;
use std::sync::Arc;

pub fn props() -> Vec<Prop> {
    vec![prop("C24", 1600, run, "runs during which a fault was really injected (by program, fault and position)")]
}

fn run(ctx: &mut Ctx, idx: u64, rng: &mut Rng) -> R {
    match idx % 4 {
        0 => transparent(ctx, rng),
        1 => recording(ctx, rng),
        _ => tool(ctx, rng),
    }
}

/// What is written in one go: a fixed list of operations on the streams of one file.
#[derive(Clone)]
enum Op {
    Write(usize, Vec<u8>),
    Atomic(usize, usize, u8),
    Flush(usize),
    Alloc(Vec<Vec<u8>>),
    Map(u64),
}

fn ops(rng: &mut Rng) -> Vec<Op> {
    let n = rng.logsize(60);
    let big = *rng.pick(&[200u64, 5000, 300_000, 900_000]);
    (0..n)
        .map(|_| match rng.below(8) {
            0..=2 => {
                let n = rng.logsize(big) as usize;
                let a = rng.below(256) as u8;
                Op::Write(rng.us(2), (0..n).map(|i| a.wrapping_add((i % 251) as u8)).collect())
            }
            3..=4 => Op::Atomic(rng.us(2), rng.logsize(big) as usize, rng.below(256) as u8),
            5 => Op::Flush(rng.us(2)),
            6 => Op::Map(rng.below(1000)),
            _ => Op::Alloc((0..rng.range(1, 3)).map(|_| text(rng, Text::Rich, big.min(4000)).into_bytes()).collect()),
        })
        .collect()
}

fn play(path: &Path, ops: &[Op]) {
    let f = std::fs::File::create(path).unwrap();
    let b = SerializationSinkBuilder::new_from_file(f).unwrap();
    let sinks = [Arc::new(b.new_sink(PageTag::Events)), Arc::new(b.new_sink(PageTag::Events))];
    let st = StringTableBuilder::new(Arc::new(b.new_sink(PageTag::StringData)), Arc::new(b.new_sink(PageTag::StringIndex))).unwrap();
    let mut ids: Vec<StringId> = vec![];
    for op in ops {
        match op {
            Op::Write(s, d) => {
                sinks[*s].write_bytes_atomic(d);
            }
            Op::Atomic(s, n, c) => {
                sinks[*s].write_atomic(*n, |b| b.fill(*c));
            }
            Op::Flush(s) => sinks[*s].as_std_write().flush().unwrap(),
            Op::Alloc(parts) => {
                let mut v: Vec<StringComponent> = parts.iter().map(|p| StringComponent::Value(std::str::from_utf8(p).unwrap())).collect();
                if let Some(i) = ids.last() {
                    v.push(StringComponent::Ref(*i));
                }
                ids.push(st.alloc(&v[..]));
            }
            Op::Map(v) => {
                if let Some(i) = ids.last() {
                    st.map_virtual_to_concrete_string(StringId::new_virtual(*v), *i);
                }
            }
        }
    }
}

/// Short writes and interruptions must not show in the file.
fn transparent(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let dir = ctx.dir("c24a");
    let Some(c) = shim::ctl() else { panic!("the shim is not loaded") };
    let ops = ops(rng);
    let (a, b) = (dir.join("a"), dir.join("b"));
    cut("recording without faults", || play(&a, &ops))?;
    c.reset();
    shim::set(&c.seed, rng.next() as i64);
    shim::set(&c.short_pm, *rng.pick(&[100, 500, 900]));
    shim::set(&c.eintr_pm, *rng.pick(&[0, 100, 500]));
    shim::set(&c.armed, 1);
    let r = cut("recording with short and interrupted writes", || play(&b, &ops));
    shim::set(&c.armed, 0);
    r?;
    let (s, e) = (shim::get(&c.n_short) as u64, shim::get(&c.n_eintr) as u64);
    let (x, y) = (std::fs::read(&a).unwrap(), std::fs::read(&b).unwrap());
    if x != y {
        let at = x.iter().zip(&y).take_while(|(p, q)| p == q).count();
        return viol(format!("{s} short and {e} interrupted writes change the file: {} instead of {} bytes, first difference at {at}", y.len(), x.len()));
    }
    ctx.count("short_writes", s);
    ctx.count("interrupted_writes", e);
    ctx.count("files_compared_byte_by_byte", 1);
    ctx.eval(if s + e > 0 { Some(hash_bytes(&x) ^ 1) } else { None });
    ctx.sample(|| format!("{} operations, {} bytes: {s} short and {e} interrupted writes", ops.len(), x.len()));
    Ok(())
}

/// helper: c24 STEM SEED N
pub fn helper(args: &[String]) {
    let (seed, n): (u64, u64) = (args[1].parse().unwrap(), args[2].parse().unwrap());
    match Profiler::new(PathBuf::from(&args[0])) {
        Ok(p) => {
            super::c12::record(&p, seed, n, |_| {});
            drop(p);
            std::process::exit(0);
        }
        Err(e) => {
            eprintln!("cannot record: {e}");
            std::process::exit(4);
        }
    }
}

struct Stats {
    writes: u64,
    short: u64,
    eintr: u64,
    fail: u64,
    bytes: u64,
    opens: u64,
    open_fail: u64,
}

fn stats(dir: &Path) -> Option<Stats> {
    let s = std::fs::read_to_string(dir.join("stats")).ok()?;
    let _ = std::fs::remove_file(dir.join("stats"));
    let v: Vec<u64> = s.split_whitespace().map(|x| x.parse().unwrap()).collect();
    Some(Stats { writes: v[0], short: v[1], eintr: v[2], fail: v[3], bytes: v[4], opens: v[5], open_fail: v[6] })
}

fn shimmed<S: AsRef<OsStr>>(ctx: &Ctx, prog: &Path, args: &[S], cwd: &Path, stats: &Path, how: &str) -> R<tools::Out> {
    let mut c = Command::new(prog);
    c.args(args).current_dir(cwd).env("LD_PRELOAD", &ctx.shim).env("MMV_SHIM", how).env("MMV_SHIM_STATS", stats.join("stats")).env("RUST_BACKTRACE", "0");
    tools::run_cmd(c, &prog.display().to_string())
}

/// A fault that does not go away, at a random position.
fn fault(rng: &mut Rng, armed: u64, s: &Stats) -> String {
    let e = rng.pick(&["ENOSPC", "EIO"]).to_string();
    let some = rng.range(0, 3);
    let seed = rng.next() >> 2;
    // some short writes on top
    let extra = if rng.chance(1, 3) { format!(",short=300,eintr=100,seed={seed}") } else { String::new() };
    match some {
        0 if s.bytes > 0 => format!("armed={armed},limit={},errno={e}{extra}", rng.below(s.bytes)),
        1 if s.opens > 0 && rng.chance(1, 3) => format!("armed={armed},open_fail_at={},errno={e}", rng.below(s.opens)),
        2 if s.writes > 0 => format!("armed={armed},once=1,fail_at={},errno={e}", rng.below(s.writes)),
        // the last writes are the ones most easily lost
        3 if s.writes > 0 => format!("armed={armed},fail_at={},errno={e}", s.writes - 1 - rng.below(s.writes.min(4))),
        _ => format!("armed={armed},fail_at={},errno={e}", rng.below(s.writes.max(1))),
    }
}

fn recording(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let dir = ctx.dir("c24b");
    let (seed, n) = (rng.next(), if rng.chance(1, 12) { rng.range(9_000, 30_000) } else { rng.logsize(500) });
    let exe = ctx.exe.clone();
    let args = |p: &str| vec!["helper".to_string(), "c24".into(), dir.join(p).to_str().unwrap().into(), seed.to_string(), n.to_string()];
    let o = shimmed(ctx, &exe, &args("s0/a"), &dir, &dir, "armed=1")?;
    check!(o.ok(), "recording without faults failed: {}", o.brief());
    let clean = stats(&dir).expect("statistics");
    let whole = std::fs::read(dir.join("s0/a.mm_profdata")).unwrap();
    let mut hit = None;
    for k in 0..3 {
        let how = fault(rng, 1, &clean);
        let stem = format!("f{k}/b");
        let o = shimmed(ctx, &exe, &args(&stem), &dir, &dir, &how)?;
        // no statistics: the process was aborted by a second panic
        let s = stats(&dir);
        let injected = s.as_ref().map(|s| s.fail + s.open_fail > 0).unwrap_or(true);
        ctx.count(if injected { "recordings_with_lasting_faults" } else { "faults_not_reached" }, 1);
        if o.ok() {
            let b = std::fs::read(dir.join(format!("{stem}.mm_profdata"))).unwrap_or_default();
            complete(&b, seed, n).map_err(|v| Violation { msg: format!("with {how} (clean run: {} writes, {} bytes) the recording finished without any error, but {}", clean.writes, clean.bytes, v.msg) })?;
        } else {
            ctx.count("recordings_that_reported_the_fault", 1);
        }
        if injected {
            hit = Some(format!("{how}: {}", if o.ok() { "complete".into() } else { o.brief() }));
        }
    }
    ctx.eval(hit.as_ref().map(|h| hash_bytes(h.as_bytes()) ^ seed));
    ctx.sample(|| format!("{n} events, {} bytes, {} writes; {}", whole.len(), clean.writes, clip(&hit.unwrap_or_default(), 300)));
    Ok(())
}

/// Whether a profile holds everything that was recorded (times excepted).
fn complete(b: &[u8], seed: u64, n: u64) -> R {
    let pd = open_bytes(b.to_vec())?;
    let got = read_evs(&pd, pd.metadata().start_time)?;
    let want = super::c12::recorded_evs(seed, n);
    check!(got.len() == want.len(), "the file holds {} of {n} events", got.len());
    for (g, w) in got.iter().zip(&want) {
        check!(g.kind == w.kind && g.label == w.label && g.args == w.args && g.tid == w.tid, "an event reads as {} instead of {}", show_ev(g), show_ev(w));
    }
    check!(refdec::pages(&b[8..]).is_ok(), "the file is cut off");
    Ok(())
}

/// A comparable form of an output: no random colours, no random order.
fn norm(name: &str, b: &[u8]) -> Vec<String> {
    let s = String::from_utf8_lossy(b);
    if name.ends_with(".svg") {
        return s.split("fill=\"rgb(").map(|p| p.split_once(")\"").map(|x| x.1).unwrap_or(p).to_string()).collect();
    }
    if name.ends_with(".json") {
        return match serde_json::from_str::<serde_json::Value>(&s) {
            Ok(mut j) => {
                sort(&mut j);
                vec![j.to_string()]
            }
            Err(_) => vec!["broken".into(), s.len().to_string()],
        };
    }
    if name.ends_with("mm_profdata") {
        return vec![b.len().to_string(), hash_bytes(b).to_string()];
    }
    let mut v: Vec<String> = s.split('\n').map(|l| l.to_string()).collect();
    v.sort();
    v
}

fn sort(j: &mut serde_json::Value) {
    match j {
        serde_json::Value::Array(a) => {
            a.iter_mut().for_each(sort);
            a.sort_by_key(|x| x.to_string());
        }
        serde_json::Value::Object(o) => o.values_mut().for_each(sort),
        _ => {}
    }
}

fn tool(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let dir = ctx.dir("c24c");
    let side = ctx.dir("c24s");
    let mk = |rng: &mut Rng| {
        let big = rng.chance(1, 6);
        let o = GenOpts { max_events: if big { 2500 } else { *rng.pick(&[3, 30, 200]) }, text: Text::Plain, max_labels: if big { 300 } else { 12 }, ..Default::default() };
        let mut t = gen_trace(rng, &o);
        if crate::model::spans(&t.evs).values().all(|(s, e)| s == e) {
            // the flame graph needs some time to show
            t.evs = vec![Ev { kind: "Query".into(), label: "only".into(), args: vec![], tid: 1, pay: Pay::Interval(10, 2000) }];
        }
        t
    };
    let (t, u) = (mk(rng), mk(rng));
    let name = if rng.chance(1, 8) { "é in" } else { "in" };
    let file = |t: &Trace, rng: &mut Rng| enc::file(t, 9, Enc::Simple, Paging::Library, rng);
    let (fa, fb) = (file(&t, rng), file(&u, rng));
    write_file(&dir, &format!("{name}.mm_profdata"), &fa);
    write_file(&dir, "other.mm_profdata", &fb);
    let full = format!("{name}.mm_profdata");
    // (tool, arguments, output file or standard output)
    let (prog, args, out): (&str, Vec<&str>, Option<String>) = match rng.below(11) {
        0 | 1 => ("crox", vec![name], Some("chrome_profiler.json".into())),
        2 | 3 => ("stack_collapse", vec![name], Some("out.stacks_folded".into())),
        4 => ("flamegraph", vec![name], Some("rustc.svg".into())),
        5 => ("summarize", vec!["summarize", name, "--json"], Some(format!("{name}.json"))),
        6 => ("summarize", vec!["diff", "other", name, "--json"], Some(format!("{name}.json"))),
        7 => ("mmedit", vec!["truncate", &full], Some(format!("{name}.truncated.mm_profdata"))),
        8 => ("mmview", vec![name], None),
        9 => ("summarize", vec!["summarize", name], None),
        _ => ("summarize", vec!["diff", "other", name], None),
    };
    let armed = if out.is_some() { 1 } else { 2 };
    let bin = ctx.tools.join(prog);
    let what = format!("{prog} {}", args.join(" "));
    let result = |o: &tools::Out| match &out {
        Some(f) => norm(f, &std::fs::read(dir.join(f)).unwrap_or_default()),
        None => norm("stdout", &o.stdout),
    };
    let o = shimmed(ctx, &bin, &args, &dir, &side, &format!("armed={armed}"))?;
    check!(o.ok(), "{what} failed without faults: {}", o.brief());
    let clean = stats(&side).expect("statistics");
    let want = result(&o);
    ctx.count("tool_runs", 1);
    let mut hit = None;
    for _ in 0..3 {
        if let Some(f) = &out {
            let _ = std::fs::remove_file(dir.join(f));
        }
        let soft = rng.chance(1, 4);
        let how = if soft { format!("armed={armed},short=500,eintr=200,seed={}", rng.next() >> 2) } else { fault(rng, armed, &clean) };
        let o = shimmed(ctx, &bin, &args, &dir, &side, &how)?;
        ctx.count("tool_runs", 1);
        let s = stats(&side);
        let injected = s.as_ref().map(|s| s.fail + s.open_fail + s.short + s.eintr > 0).unwrap_or(true);
        let about = format!("{what} with {how} (clean run: {} writes, {} bytes)", clean.writes, clean.bytes);
        if soft {
            check!(o.ok(), "{about} failed: {}", o.brief());
        }
        if o.ok() {
            let got = result(&o);
            check!(got == want, "{about} succeeded, but its output is not the one of an undisturbed run ({} instead of {} parts)", got.len(), want.len());
        } else {
            ctx.count("tool_faults_reported", 1);
        }
        ctx.count(if injected { "tool_runs_with_faults" } else { "faults_not_reached" }, 1);
        if injected {
            hit = Some(format!("{about}: {}", if o.ok() { "complete output".into() } else { o.brief() }));
        }
    }
    let inputs = std::fs::read(dir.join(&full)).map(|b| b == fa).unwrap_or(false) && std::fs::read(dir.join("other.mm_profdata")).map(|b| b == fb).unwrap_or(false);
    check!(inputs, "{what}: an input was altered");
    ctx.eval(hit.as_ref().map(|h| hash_bytes(h.as_bytes()) ^ t.key()));
    ctx.sample(|| clip(&hit.unwrap_or_default(), 400));
    Ok(())
}

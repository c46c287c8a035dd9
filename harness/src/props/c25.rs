//! C25: profile metadata is truthful and readable for any program.
use super::*;
use crate::{refdec, tools};
use measureme::Profiler;
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::process::CommandExt;
use std::process::Command;

pub fn props() -> Vec<Prop> {
    vec![prop("C25", 12000, run, "command lines that differ and need more than plain ASCII letters, digits and blanks")]
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
}

/// helper: c25 STEM ...; the environment says how many profilers to create, and in which of them a child process does
pub fn helper(args: &[String]) {
    let plan = std::env::var("MMV_C25").unwrap_or_default();
    for (i, c) in plan.chars().enumerate() {
        let stem = format!("{}{i}", args[0]);
        if c == 'f' {
            // a process that is not the one that created the first profiler
            let (pid, mut st) = unsafe { (fork(), 0) };
            if pid == 0 {
                record(&stem);
                std::process::exit(0);
            }
            unsafe { waitpid(pid, &mut st, 0) };
            if st != 0 {
                std::process::exit(4);
            }
        } else {
            record(&stem);
        }
    }
}

fn record(stem: &str) {
    let now = || SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_nanos();
    let a = now();
    let p = match Profiler::new(PathBuf::from(stem)) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("Profiler::new: {e}");
            std::process::exit(3);
        }
    };
    let b = now();
    let k = p.alloc_string("k");
    p.record_integer_event(k, measureme::EventId::from_label(k), 1, 42);
    drop(p);
    println!("{} {a} {b}", std::process::id());
}

fn arg(rng: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    match rng.below(9) {
        0 => {}
        1 => v = rng.pick(&["--crate-name", "--", "-O", "x y", "a=b", "'", "\"", "\\", "\\\"", "\\u0041", "{}", "%s", "null", "\n", "\t", "\r\n", "\u{7f}", "\u{1}", "\u{b}", "\u{c}\u{8}", "é", "漢字", "🦀", "\u{2028}", "\u{feff}", "\u{0}x".trim_start_matches('\0'), "\u{10ffff}", "//", "</script>", "\u{85}", "$(rm)", "'{\"a\":1}'"]).as_bytes().to_vec(),
        2..=4 => v = text(rng, Text::Any, 40).into_bytes(),
        5 => {
            let n = rng.range(1, 12);
            v = (0..n).map(|_| 1 + rng.below(255) as u8).collect();
        }
        6 => {
            // Unicode with a flaw
            v = text(rng, Text::Rich, 30).into_bytes();
            let i = rng.us(v.len() + 1);
            v.insert(i, *rng.pick(&[0xFFu8, 0xFE, 0x80, 0xC3, 0xED, 0xF4, 0xC0]));
        }
        7 => v = text(rng, Text::Plain, 20).into_bytes(),
        _ => {
            let big = rng.chance(1, 20);
            let n = rng.logsize(if big { 100_000 } else { 2000 }) as usize;
            v = text_len(rng, Text::Any, n).into_bytes();
        }
    }
    v.retain(|b| *b != 0);
    v
}

fn run(ctx: &mut Ctx, _idx: u64, rng: &mut Rng) -> R {
    let dir = ctx.dir("c25");
    let mut argv: Vec<Vec<u8>> = vec![if rng.chance(1, 2) { arg(rng) } else { ctx.exe.as_os_str().as_bytes().to_vec() }];
    argv.push(b"helper".to_vec());
    argv.push(b"c25".to_vec());
    let stem = dir.join("p");
    argv.push(stem.as_os_str().as_bytes().to_vec());
    for _ in 0..rng.logsize(12) {
        argv.push(arg(rng));
    }
    let mut c = Command::new(&ctx.exe);
    c.arg0(OsStr::from_bytes(&argv[0])).env_remove("LD_PRELOAD").current_dir(&dir).env("RUST_BACKTRACE", "0");
    let plan: String = match rng.below(4) {
        0 => rng.pick(&["pp", "pf", "pfp", "fp", "ppp", "ff"]).to_string(),
        _ => "p".into(),
    };
    c.env("MMV_C25", &plan);
    for a in &argv[1..] {
        c.arg(OsString::from(OsStr::from_bytes(a)));
    }
    let o = tools::run_cmd(c, "recording process")?;
    let line: String = argv.iter().map(|a| format!("{} ", String::from_utf8_lossy(a))).collect();
    let what = format!("recording process with the command line {}", show(&line));
    check!(o.ok(), "{what} failed: {}", o.brief());
    let v: Vec<u128> = o.out().split_whitespace().map(|x| x.parse().unwrap()).collect();
    check!(v.len() == 3 * plan.len(), "{what}: unexpected output {}", o.brief());
    for (i, v) in v.chunks(3).enumerate() {
        let w = if plan.len() > 1 { format!("{what} (profiler {i} of {plan:?})") } else { what.clone() };
        profile(&dir.join(format!("p{i}.mm_profdata")), v, &line, &w)?;
        ctx.count("profiles", 1);
    }
    ctx.count("processes_with_several_profilers", (plan.len() > 1) as u64);
    ctx.count("profilers_in_forked_processes", plan.matches('f').count() as u64);
    let odd = argv[..1].iter().chain(&argv[4..]).any(|a| a.iter().any(|c| !c.is_ascii_alphanumeric() && *c != b' '));
    let lossy = argv.iter().any(|a| std::str::from_utf8(a).is_err());
    ctx.count("arguments", argv.len() as u64);
    ctx.count("command_lines_that_are_not_unicode", lossy as u64);
    ctx.maxc("command_line_bytes", line.len() as u64);
    ctx.eval(if odd { Some(hash_bytes(line[..].as_bytes())) } else { None });
    ctx.sample(|| show(&line));
    Ok(())
}

fn profile(path: &Path, v: &[u128], line: &str, what: &str) -> R {
    let (pid, a, b) = (v[0], v[1], v[2]);
    let pd = match cut("ProfilingData::new", || ProfilingData::new(path))? {
        Ok(p) => p,
        Err(e) => return viol(format!("{what}: the profile cannot be opened: {e}")),
    };
    let m = pd.metadata();
    check!(m.process_id as u128 == pid, "{what}: process id {} instead of {pid}", m.process_id);
    let t = m.start_time.duration_since(UNIX_EPOCH).map(|d| d.as_nanos()).unwrap_or(0);
    check!(a <= t && t <= b, "{what}: start time {t}, but the profiler was created between {a} and {b}");
    if m.cmd != line {
        let at = m.cmd.chars().zip(line.chars()).take_while(|(x, y)| x == y).count();
        let from = |s: &str| s.chars().skip(at.saturating_sub(5)).take(40).collect::<String>();
        return viol(format!("{what}: the metadata's command line differs at character {at}: {} instead of {}", show(&from(&m.cmd)), show(&from(line))));
    }
    // any JSON reader must get the same
    let bytes = std::fs::read(path).unwrap();
    let json = match refdec::decode(&bytes) {
        Ok(d) => d.meta,
        Err(e) => return viol(format!("{what}: the file is not in the documented format: {e}")),
    };
    match serde_json::from_str::<serde_json::Value>(&json) {
        Ok(j) => {
            check!(j["cmd"].as_str() == Some(line) && j["process_id"].as_u64() == Some(pid as u64) && j["start_time"].as_u64() == Some(t as u64), "{what}: metadata {}", show(&json));
        }
        Err(e) => return viol(format!("{what}: the metadata is no JSON ({e}): {}", show(&json))),
    }
    check!(pd.num_events() == 1, "{what}: {} events", pd.num_events());
    Ok(())
}

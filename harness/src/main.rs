mod canary;
mod core;
mod enc;
mod gen;
mod model;
mod props;
mod refdec;
mod shim;
mod tools;
mod util;

use crate::core::*;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::path::PathBuf;
use std::time::{Duration, Instant};

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter()
        .position(|a| a == name)
        .and_then(|i| args.get(i + 1).cloned())
}

fn case_rng(prop: &str, seed: u64, idx: u64) -> Rng {
    let mut h = Hasher64::new();
    h.bytes(prop.as_bytes());
    h.add(seed);
    h.add(idx);
    Rng::new(h.0)
}

fn main() {
    let args: Vec<String> = std::env::args_os()
        .map(|a| a.to_string_lossy().into_owned())
        .collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props::all() {
                println!("{}\t{}", p.id, p.rule);
            }
        }
        Some("worker") => worker(&args),
        Some("canary") => canary::canary(&args[2]),
        Some("helper") => props::helper(&args[2..]),
        _ => {
            eprintln!("usage: mmv list | worker ...");
            std::process::exit(2);
        }
    }
}

/// worker PROP --tier T --seed S --worker I --workers N --dir D --tools T --shim S --secs N
///        [--case IDX --reps N] [--count N]
fn worker(args: &[String]) {
    let id = args[2].clone();
    let prop = props::all()
        .into_iter()
        .find(|p| p.id == id)
        .expect("unknown property");
    let tier = if arg(args, "--tier").as_deref() == Some("thorough") {
        Tier::Thorough
    } else {
        Tier::Quick
    };
    let seed: u64 = arg(args, "--seed").unwrap_or("1".into()).parse().unwrap();
    let wi: u64 = arg(args, "--worker").unwrap_or("0".into()).parse().unwrap();
    let wn: u64 = arg(args, "--workers").unwrap_or("1".into()).parse().unwrap();
    let dir = PathBuf::from(arg(args, "--dir").expect("--dir"));
    let secs: f64 = arg(args, "--secs").unwrap_or("60".into()).parse().unwrap();
    let tools = PathBuf::from(arg(args, "--tools").unwrap_or_default());
    let shim = PathBuf::from(arg(args, "--shim").unwrap_or_default());
    let one: Option<u64> = arg(args, "--case").map(|c| c.parse().unwrap());
    let reps: u64 = arg(args, "--reps").unwrap_or("1".into()).parse().unwrap();
    let scratch = dir.join(format!("scratch{wi}"));
    let _ = std::fs::remove_dir_all(&scratch);
    std::fs::create_dir_all(&scratch).unwrap();
    if prop.quiet && std::env::var_os("MMV_LOUD").is_none() {
        unsafe {
            let fd = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_WRONLY);
            libc::dup2(fd, 2);
            libc::close(fd);
        }
    }
    install_panic_hook();
    let cur = std::fs::OpenOptions::new()
        .create(true)
        .write(true)
        .truncate(true)
        .open(dir.join(format!("w{wi}.cur")))
        .unwrap();
    let mut ctx = Ctx {
        tier,
        seed,
        idx: 0,
        evals: 0,
        distinct: Default::default(),
        counters: Default::default(),
        samples: Vec::new(),
        max_samples: 2,
        scratch: scratch.clone(),
        tools,
        shim,
        exe: std::env::current_exe().unwrap(),
    };
    let deadline = Instant::now() + Duration::from_secs_f64(secs);
    let total = match arg(args, "--count") {
        Some(c) => c.parse().unwrap(),
        None if tier == Tier::Quick => prop.quick,
        None => u64::MAX,
    };
    let mut done = 0u64;
    let mut capped = false;
    let mut i = 0;
    loop {
        let idx = match one {
            Some(c) => {
                if done >= reps {
                    break;
                }
                c
            }
            None => {
                // cases are spread over the workers irregularly, as their kinds follow the index
                while i < total && mix(i ^ 0x5EED) % wn != wi {
                    i += 1;
                }
                if i >= total {
                    break;
                }
                i
            }
        };
        if Instant::now() >= deadline {
            capped = true;
            break;
        }
        let mut hb = [0u8; 16];
        hb[..8].copy_from_slice(&idx.to_le_bytes());
        hb[8..].copy_from_slice(&done.to_le_bytes());
        let _ = cur.write_at(&hb, 0);
        ctx.idx = idx;
        let mut rng = case_rng(&id, seed, idx);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            (prop.run)(&mut ctx, idx, &mut rng)
        }));
        match r {
            Ok(Ok(())) => {}
            Ok(Err(v)) => {
                finish(&dir, wi, &ctx, done, capped);
                let j = serde_json::json!({"property": id, "case": idx, "seed": seed,
                    "tier": if tier == Tier::Quick {"quick"} else {"thorough"}, "message": v.msg});
                std::fs::write(dir.join(format!("w{wi}.viol")), j.to_string()).unwrap();
                std::process::exit(10);
            }
            Err(_) => {
                let (m, l) = take_panic();
                let inside = l.starts_with("/repo/") || l.contains("/.cargo/registry/");
                finish(&dir, wi, &ctx, done, capped);
                let j = serde_json::json!({"property": id, "case": idx, "seed": seed,
                    "tier": if tier == Tier::Quick {"quick"} else {"thorough"},
                    "message": format!("panic: {} at {}", clip(&m, 500), l)});
                let name = if inside { "viol" } else { "error" };
                std::fs::write(dir.join(format!("w{wi}.{name}")), j.to_string()).unwrap();
                std::process::exit(if inside { 10 } else { 11 });
            }
        }
        done += 1;
        i += 1;
    }
    finish(&dir, wi, &ctx, done, capped);
    let _ = std::fs::remove_dir_all(&scratch);
}

fn finish(dir: &std::path::Path, wi: u64, ctx: &Ctx, done: u64, capped: bool) {
    let j = serde_json::json!({
        "cases": done, "evals": ctx.evals, "capped": capped,
        "counters": ctx.counters, "samples": ctx.samples,
    });
    std::fs::write(dir.join(format!("w{wi}.json")), j.to_string()).unwrap();
    let mut f =
        std::io::BufWriter::new(std::fs::File::create(dir.join(format!("w{wi}.keys"))).unwrap());
    for k in &ctx.distinct {
        f.write_all(&k.to_le_bytes()).unwrap();
    }
    f.flush().unwrap();
}

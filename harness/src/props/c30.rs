//! C30: tools fail cleanly on unusable input and never alter their inputs.
use super::c11::{damage, Damaged, KINDS};
use super::*;
use crate::enc::{self, put_page, Enc, Paging};
use crate::tools::{tool, Out};
use std::ffi::OsString;
use std::os::unix::fs::MetadataExt;

pub fn props() -> Vec<Prop> {
    vec![prop("C30", 6000, run, "distinct (input, tool invocation) pairs")]
}

#[derive(PartialEq, Eq, Debug, Clone)]
struct Stamp {
    link: Option<PathBuf>,
    dir: bool,
    ino: u64,
    mode: u32,
    len: u64,
    mtime: (i64, i64),
    ctime: (i64, i64),
    hash: u64,
}

fn stamp(p: &Path) -> Option<Stamp> {
    let m = std::fs::symlink_metadata(p).ok()?;
    let link = if m.is_symlink() { Some(std::fs::read_link(p).unwrap()) } else { None };
    let dir = m.is_dir();
    Some(Stamp {
        hash: if m.is_file() || (link.is_some() && p.is_file()) { hash_bytes(&std::fs::read(p).unwrap()) } else { 0 },
        ino: m.ino(),
        mode: m.mode(),
        // what lies in a directory is stamped by itself
        len: if dir { 0 } else { m.len() },
        mtime: if dir { (0, 0) } else { (m.mtime(), m.mtime_nsec()) },
        ctime: if dir { (0, 0) } else { (m.ctime(), m.ctime_nsec()) },
        link,
        dir,
    })
}

/// An input that is not a usable profile.
struct Bad {
    what: String,
    kind: &'static str,
    /// also unusable for mmedit, which copies pages without looking into them
    mmedit: bool,
    bytes: Option<Vec<u8>>,
}

fn bad_input(ctx: &Ctx, dir: &Path, path: &Path, rng: &mut Rng) -> Bad {
    let n = rng.logsize(12) as usize;
    let t = gen_loose(rng, n, Text::Rich, 20, 2);
    let v = if rng.chance(1, 3) { 8 } else { 9 };
    let file = |mmedit: bool, kind: &'static str, what: String, b: Vec<u8>| {
        std::fs::write(path, &b).unwrap();
        Bad { what, kind, mmedit, bytes: Some(b) }
    };
    match rng.below(12) {
        0 => match rng.below(5) {
            0 => {
                std::fs::create_dir(path).unwrap();
                Bad { what: "a directory".into(), kind: "directory", mmedit: true, bytes: None }
            }
            1 => {
                std::os::unix::fs::symlink("nowhere", path).unwrap();
                Bad { what: "a dangling link".into(), kind: "dangling_link", mmedit: true, bytes: None }
            }
            2 => {
                // the files of older versions of the library
                let stem = path.file_stem().unwrap().to_str().unwrap().to_string();
                for e in ["events", "string_data", "string_index"] {
                    if rng.chance(2, 3) {
                        write_file(dir, &format!("{stem}.{e}"), b"MMES\x05\0\0\0");
                    }
                }
                Bad { what: "files of an old library version".into(), kind: "old_files", mmedit: true, bytes: None }
            }
            _ => Bad { what: "missing".into(), kind: "missing", mmedit: true, bytes: None },
        },
        1 => {
            let full = enc::file(&t, v, Enc::Simple, Paging::Library, rng);
            let n = rng.below(8) as usize;
            file(true, "cut_header", format!("the first {n} bytes of a profile"), full[..n].to_vec())
        }
        2 => {
            let b: Vec<u8> = match rng.below(7) {
                0 => std::fs::read(ctx.tools.join("mmview")).unwrap()[..rng.range(8, 5000) as usize].to_vec(),
                1 => b"{\"start_time\":1,\"process_id\":2,\"cmd\":\"x\"}".to_vec(),
                2 => text_len(rng, Text::Rich, 40).into_bytes(),
                3 => vec![0; rng.range(1, 100) as usize],
                4 => vec![255; rng.range(1, 100) as usize],
                5 => b"\x1f\x8b\x08\0\0\0\0\0\0\x03\x01\0\0\xff\xff\0\0\0\0\0\0\0\0\0".to_vec(),
                _ => {
                    let mut b: Vec<u8> = rng.pick(&[b"MMES", b"MMSD", b"MMSI", b"mmpd", b"DPMM"]).to_vec();
                    b.extend_from_slice(&v.to_le_bytes());
                    b.extend((0..rng.below(60)).map(|_| rng.next() as u8));
                    b
                }
            };
            file(true, "foreign", format!("foreign content {:?}", clip(&String::from_utf8_lossy(&b), 60)), b)
        }
        3 | 4 => {
            let mut f = enc::file(&t, v, Enc::Simple, Paging::Random, rng);
            let w = match rng.below(5) {
                0 => rng.below(7) as u32,
                1 => rng.range(10, 30) as u32,
                2 => u32::MAX - rng.below(3) as u32,
                3 => *rng.pick(&[8u32 << 8, 9 << 8, 9 << 24, 9 << 16, 256, 265, 263]),
                _ => 7,
            };
            f[4..8].copy_from_slice(&w.to_le_bytes());
            file(w != 7, "version", format!("version {w}"), f)
        }
        5 => {
            // pages that are damaged while no stream header is complete either
            let mut b = b"MMPD".to_vec();
            b.extend_from_slice(&v.to_le_bytes());
            let good = rng.below(3);
            for _ in 0..good {
                put_page(&mut b, rng.below(3) as u8, b"x");
            }
            let tail: Vec<u8> = match rng.below(4) {
                0 => vec![rng.below(3) as u8; rng.range(1, 4) as usize],
                1 => vec![rng.below(3) as u8, 0, 0, 0, 0],
                2 => vec![rng.below(3) as u8, 255, 255, 255, 255, 1],
                _ => vec![rng.range(3, 255) as u8, 1, 0, 0, 0, 1],
            };
            b.extend_from_slice(&tail);
            file(true, "pages", format!("damaged pages {b:02x?}"), b)
        }
        _ => {
            let Damaged { bytes, kind, name, .. } = damage(&t, v, rng);
            let mm = match kind {
                0..=3 => true,
                // versions from 7 are supported by mmedit, as far as the page structure goes
                12 => !(&bytes[..4] == b"MMPD" && (7..=9).contains(&u32::from_le_bytes(bytes[4..8].try_into().unwrap()))),
                _ => false,
            };
            file(mm, KINDS[kind], format!("{name} (version {v})"), bytes)
        }
    }
}

fn failed(o: &Out, what: &str) -> R {
    check!(o.signal.is_none(), "{what}: killed by signal {:?}: {}", o.signal, o.brief());
    check!(!o.panicked(), "{what}: crashed: {}", o.brief());
    check!(o.code.is_some_and(|c| c != 0), "{what}: succeeded: {}", o.brief());
    check!(!o.err().trim().is_empty(), "{what}: failed without a message: {}", o.brief());
    Ok(())
}

/// A tool invocation: (tool, arguments), given the usable inputs and the one under test.
fn invocation(rng: &mut Rng, dir: &Path, good: &[String], x: &str, k: u64, exact: &str) -> (&'static str, Vec<OsString>) {
    let mut a: Vec<String> = vec![];
    let name;
    let mut gs = good.to_vec();
    rng.shuffle(&mut gs);
    match k {
        0 => {
            name = "crox";
            match rng.below(4) {
                0 => a.push(x.into()),
                1 => {
                    a.extend(["--dir".to_string(), dir.display().to_string()]);
                    if rng.chance(1, 2) {
                        a.push(gs[0].clone());
                    }
                }
                _ => {
                    let n = rng.below(3) as usize;
                    a.extend(gs.iter().take(n).cloned());
                    let at = rng.us(a.len() + 1);
                    a.insert(at, x.into());
                }
            }
            if rng.chance(1, 3) {
                a.push("--collapse-threads".into());
            }
            if rng.chance(1, 3) {
                a.extend(["--minimum-duration".to_string(), rng.logsize(1000).to_string()]);
            }
        }
        1 => {
            name = "mmview";
            a.push(x.into());
            if rng.chance(1, 3) {
                a.extend(["-t".to_string(), rng.below(4).to_string()]);
            }
        }
        2 => {
            name = "summarize";
            a.extend(["summarize".to_string(), x.into()]);
            match rng.below(3) {
                0 => a.push("--json".into()),
                1 => a.extend(["-p".to_string(), rng.below(100).to_string()]),
                _ => {}
            }
        }
        3 => {
            name = "summarize";
            a.push("diff".into());
            let mut two = [x.to_string(), gs[0].clone()];
            if rng.chance(1, 4) {
                two[1] = x.into();
            }
            rng.shuffle(&mut two);
            a.extend(two);
            if rng.chance(1, 3) {
                a.push("--json".into());
            }
            if rng.chance(1, 4) {
                a.extend(["-e".to_string(), "x".to_string()]);
            }
        }
        4 => {
            name = "summarize";
            a.push("aggregate".into());
            let n = rng.below(3) as usize;
            let mut l: Vec<String> = gs.iter().take(n).cloned().collect();
            let at = rng.us(l.len() + 1);
            l.insert(at, x.into());
            a.extend(l);
        }
        5 => {
            name = "stack_collapse";
            a.push(x.into());
        }
        6 => {
            name = "flamegraph";
            a.push(x.into());
        }
        _ => {
            name = "mmedit";
            a.extend(["truncate".to_string(), exact.into()]);
        }
    }
    (name, a.into_iter().map(OsString::from).collect())
}

fn run(ctx: &mut Ctx, idx: u64, rng: &mut Rng) -> R {
    let dir = ctx.dir("c30");
    if idx % 10 == 9 {
        return other_inputs(ctx, &dir, rng);
    }
    // the profiles that are fine: the same work several times, so that all tools can take them
    let v = if rng.chance(1, 3) { 8 } else { 9 };
    let o = GenOpts { text: Text::Plain, max_threads: 2, ..GenOpts::default() };
    let t = gen_trace(rng, &o);
    let mut names: Vec<&str> = vec!["a", "b", "chrome_profiler", "out", "rustc", "crate-0012345", "A B", "-x", "é", "t.truncated", "chrome_profiler.json", "u.json", "v.1"];
    rng.shuffle(&mut names);
    let style = |rng: &mut Rng, n: &str| -> String {
        let base = if rng.chance(1, 2) || n.starts_with('-') { dir.join(n).display().to_string() } else { n.to_string() };
        match rng.below(3) {
            // (what follows a dot would be taken for an extension)
            0 if !n.contains('.') => base,
            0 | 1 => format!("{base}.mm_profdata"),
            _ => format!("{base}.events"),
        }
    };
    let mut good = vec![];
    let mut paths = vec![];
    for n in &names[..2] {
        let e = *rng.pick(&[Enc::Simple, Enc::Mixed]);
        let p = *rng.pick(&[Paging::Single, Paging::Random, Paging::Library]);
        paths.push(write_file(&dir, &format!("{n}.mm_profdata"), &enc::file(&t, v, e, p, rng)));
        good.push(style(rng, n));
    }
    let n = names[2];
    let path = dir.join(format!("{n}.mm_profdata"));
    let healthy = rng.chance(1, 3);
    let bad = if healthy {
        let b = enc::file(&t, v, Enc::Mixed, Paging::Random, rng);
        std::fs::write(&path, &b).unwrap();
        Bad { what: "a usable profile".into(), kind: "usable", mmedit: false, bytes: Some(b) }
    } else {
        bad_input(ctx, &dir, &path, rng)
    };
    paths.push(path.clone());
    for e in ["events", "string_data", "string_index"] {
        paths.push(dir.join(format!("{n}.{e}")));
    }
    if rng.chance(1, 4) {
        for p in &paths {
            if let Ok(m) = std::fs::symlink_metadata(p) {
                if m.is_file() {
                    let mut pm = m.permissions();
                    pm.set_readonly(true);
                    std::fs::set_permissions(p, pm).unwrap();
                }
            }
        }
    }
    let key = hash_bytes(bad.bytes.as_deref().unwrap_or(bad.what.as_bytes()));
    let before: Vec<_> = paths.iter().map(|p| stamp(p)).collect();
    let runs = rng.range(2, 5);
    for _ in 0..runs {
        let k = rng.below(8);
        let x = style(rng, n);
        let exact = if rng.chance(1, 2) || n.starts_with('-') { path.display().to_string() } else { format!("{n}.mm_profdata") };
        let (name, args) = invocation(rng, &dir, &good, &x, k, &exact);
        let what = format!("{name} {args:?} where {n:?} is {}", bad.what);
        // crox --dir only sees existing files
        let out = tool(ctx, name, &args, &dir)?;
        let dir_only = args.iter().any(|a| a == "--dir") && !args.iter().any(|a| *a == *x);
        let unseen = dir_only && before[2].is_none();
        if name == "mmedit" {
            // it writes the copy beside its input, which would be in the way of --dir
            let _ = std::fs::remove_file(path.with_extension("truncated.mm_profdata"));
        }
        let after: Vec<_> = paths.iter().map(|p| stamp(p)).collect();
        for ((p, b), a) in paths.iter().zip(&before).zip(&after) {
            check!(a == b, "{what}: the input {} was altered: {b:?} became {a:?}", p.display());
        }
        if bad.kind == "usable" || unseen || (name == "mmedit" && !bad.mmedit) {
            check!(out.signal.is_none(), "{what}: killed by a signal: {}", out.brief());
            check!(name != "mmedit" || !out.panicked(), "{what}: crashed: {}", out.brief());
            if bad.kind == "usable" {
                ctx.count("usable_runs", 1);
                ctx.count(if out.ok() { "usable_runs_ok" } else { "usable_runs_refused" }, 1);
            }
        } else {
            failed(&out, &what)?;
            ctx.count("failures_seen", 1);
            ctx.count(&format!("bad_{}", bad.kind), 1);
        }
        ctx.count(&format!("ran_{name}"), 1);
        ctx.count("input_snapshots", paths.len() as u64);
        ctx.eval(Some(hash_bytes(format!("{key} {name} {args:?}").as_bytes())));
        ctx.sample(|| format!("{}: {}", clip(&what, 200), clip(&out.brief(), 200)));
    }
    Ok(())
}

/// Inputs other than profiles: summaries for diff, directories, and missing arguments.
fn other_inputs(ctx: &mut Ctx, dir: &Path, rng: &mut Rng) -> R {
    let o = GenOpts { text: Text::Plain, max_threads: 1, ..GenOpts::default() };
    let t = gen_trace(rng, &o);
    let g = write_file(dir, "g.mm_profdata", &enc::file(&t, 9, Enc::Simple, Paging::Library, rng));
    let before = stamp(&g);
    let (name, args, what): (&str, Vec<String>, String) = match rng.below(5) {
        0 | 1 => {
            let b: Option<&[u8]> = *rng.pick(&[None, Some(b"" as &[u8]), Some(b"{"), Some(b"[]"), Some(b"{\"query_data\":[]}"), Some(b"\xff\xfe"), Some(b"MMPD\x09\0\0\0"), Some(b"null"), Some(b"{\"query_data\":7,\"artifact_sizes\":[],\"total_time\":{\"secs\":0,\"nanos\":0}}")]);
            match b {
                Some(b) => {
                    write_file(dir, "s.json", b);
                }
                None if rng.chance(1, 2) => std::fs::create_dir(dir.join("s.json")).unwrap(),
                None => {}
            }
            let mut two = vec!["s.json".to_string(), "g".to_string()];
            rng.shuffle(&mut two);
            let mut a = vec!["diff".to_string()];
            a.extend(two);
            if rng.chance(1, 3) {
                a.push("--json".into());
            }
            ("summarize", a, format!("s.json is {:?}", b.map(String::from_utf8_lossy)))
        }
        2 => {
            write_file(dir, "plain", b"x");
            ("crox", vec!["--dir".into(), rng.pick(&["nowhere", "g.mm_profdata", "plain", ""]).to_string()], "no directory".into())
        }
        3 => {
            let (n, a) = *rng.pick(&[("crox", "") , ("mmview", ""), ("flamegraph", ""), ("stack_collapse", ""), ("mmedit", ""), ("summarize", ""), ("mmedit", "truncate"), ("summarize", "summarize"), ("summarize", "diff"), ("mmview", "--nope"), ("crox", "--minimum-duration=x"), ("mmview", "-t=-1")]);
            (n, if a.is_empty() { vec![] } else { vec![a.into()] }, "incomplete arguments".into())
        }
        _ => {
            // names without a file behind them
            let x = rng.pick(&["", ".", "..", "/", "nowhere/g", "g/", "g/x", "g.mm_profdata/x", "\u{fffd}"]).to_string();
            let (n, a): (&str, Vec<String>) = match rng.below(6) {
                0 => ("crox", vec![x.clone()]),
                1 => ("mmview", vec![x.clone()]),
                2 => ("flamegraph", vec![x.clone()]),
                3 => ("stack_collapse", vec![x.clone()]),
                4 => ("mmedit", vec!["truncate".into(), x.clone()]),
                _ => ("summarize", vec!["summarize".into(), x.clone()]),
            };
            if x == "g/" && n != "mmedit" {
                // means the same as "g"
                return Ok(());
            }
            (n, a, format!("there is no {x:?}"))
        }
    };
    let what = format!("{name} {args:?} where {what}");
    let out = tool(ctx, name, &args, dir)?;
    check!(stamp(&g) == before, "{what}: the profile {} was altered", g.display());
    failed(&out, &what)?;
    ctx.count("failures_seen", 1);
    ctx.count("bad_other", 1);
    ctx.count(&format!("ran_{name}"), 1);
    ctx.eval(Some(hash_bytes(what.as_bytes())));
    Ok(())
}

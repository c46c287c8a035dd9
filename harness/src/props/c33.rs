//! C33: recording streams its data to the file as it goes.
use super::*;
use crate::refdec;
use measureme::{EventId, Profiler, SerializationSink, SerializationSinkBuilder};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};

const LAG: usize = 256 * 1024;

pub fn props() -> Vec<Prop> {
    vec![prop("C33", 2700, run, "recordings that differ and leave more than a page in the file before they are cut off")]
}

/// The length of the `i`-th string of thread `t`.
fn string_len(seed: u64, t: u32, i: u64) -> usize {
    let r = mix(seed ^ ((t as u64) << 48) ^ i);
    match r % 64 {
        0 => 3000 + (r >> 8) as usize % 30_000,
        1 if i % 50 == 1 => 200_000 + (r >> 8) as usize % 400_000,
        2..=9 => 100 + (r >> 8) as usize % 300,
        _ => 24 + (r >> 8) as usize % 30,
    }
}

fn string(seed: u64, t: u32, i: u64, out: &mut String) {
    let n = string_len(seed, t, i);
    out.clear();
    out.push_str(&format!("{t}-{i}-"));
    while out.len() < n {
        out.push((b'a' + (out.len() % 23) as u8) as char);
    }
}

fn hwm_kib() -> u64 {
    let s = std::fs::read_to_string("/proc/self/status").unwrap();
    s.lines().find(|l| l.starts_with("VmHWM")).and_then(|l| l.split_whitespace().nth(1)).unwrap().parse().unwrap()
}

/// helper: c33 STEM SEED THREADS MODE; records until it is killed, noting per thread how many
/// rounds it completed. MODE grow: records a lot and tells its memory use.
pub fn helper(args: &[String]) {
    let p = Profiler::new(PathBuf::from(&args[0])).unwrap();
    let seed: u64 = args[1].parse().unwrap();
    let threads: u32 = args[2].parse().unwrap();
    let notes = std::fs::OpenOptions::new().write(true).create(true).open(format!("{}.notes", args[0])).unwrap();
    let kind = p.alloc_string("k");
    if args[3] == "grow" {
        let mut s = String::new();
        let mut at = vec![];
        let (mut i, mut bytes) = (0u64, 0u64);
        for limit in [16u64 << 20, 96 << 20] {
            while bytes < limit {
                string(seed, 0, i, &mut s);
                let id = p.alloc_string(&s[..]);
                bytes += s.len() as u64;
                for _ in 0..4 {
                    p.record_integer_event(kind, EventId::from_label(id), 0, i);
                    bytes += 32;
                }
                i += 1;
            }
            at.push(hwm_kib());
        }
        println!("{} {} {bytes}", at[0], at[1]);
        return;
    }
    let stop = AtomicBool::new(false);
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (p, notes, stop) = (&p, &notes, &stop);
            sc.spawn(move || {
                let mut s = String::new();
                for i in 0u64.. {
                    if stop.load(Ordering::Relaxed) || i > 20_000_000 {
                        break;
                    }
                    string(seed, t, i, &mut s);
                    let id = p.alloc_string(&s[..]);
                    p.record_integer_event(kind, EventId::from_label(id), t, i);
                    notes.write_at(&(i + 1).to_le_bytes(), t as u64 * 8).unwrap();
                }
            });
        }
    });
}

/// Splits the file into the complete pages of each stream and the torn rest.
fn torn(b: &[u8]) -> R<([Vec<u8>; 3], usize, usize)> {
    let mut s: [Vec<u8>; 3] = Default::default();
    let (mut at, mut n) = (0, 0);
    while b.len() - at >= 5 {
        let tag = b[at] as usize;
        let len = u32::from_le_bytes(b[at + 1..at + 5].try_into().unwrap()) as usize;
        check!(tag < 3 && len > 0 && len <= LAG, "page {n} at byte {at} has tag {tag} and length {len}");
        if b.len() - at - 5 < len {
            break;
        }
        s[tag].extend(&b[at + 5..at + 5 + len]);
        at += 5 + len;
        n += 1;
    }
    if b.len() > at {
        check!(b[at] < 3, "the unfinished page at byte {at} has tag {}", b[at]);
    }
    Ok((s, n, b.len() - at))
}

fn killed(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let dir = ctx.dir("c33");
    let seed = rng.next() >> 1;
    let threads = *rng.pick(&[1u32, 1, 2, 4]);
    let mut c = Command::new(&ctx.exe)
        .args(["helper", "c33", "p", &seed.to_string(), &threads.to_string(), "run"])
        .current_dir(&dir)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .env_remove("LD_PRELOAD")
        .spawn()
        .expect("spawn");
    // wait for a certain amount of activity, then kill at once
    let goal = *rng.pick(&[1u64, 500, 5_000, 20_000]) + rng.below(3000);
    let t0 = std::time::Instant::now();
    let notes = dir.join("p.notes");
    let done = |v: &[u8]| -> Vec<u64> { v.chunks(8).map(|c| c.try_into().map(u64::from_le_bytes).unwrap_or(0)).collect() };
    loop {
        let n: u64 = std::fs::read(&notes).map(|v| done(&v).iter().sum()).unwrap_or(0);
        if n >= goal {
            break;
        }
        if let Some(st) = c.try_wait().unwrap() {
            let mut e = String::new();
            std::io::Read::read_to_string(c.stderr.as_mut().unwrap(), &mut e).ok();
            return viol(format!("the recording process ended by itself ({st}): {}", clip(&e, 400)));
        }
        if t0.elapsed() > Duration::from_secs(60) {
            c.kill().ok();
            c.wait().ok();
            return viol(format!("the recording process completed {n} of {goal} rounds in a minute"));
        }
        std::thread::sleep(Duration::from_micros(300));
    }
    c.kill().unwrap();
    c.wait().unwrap();
    let mut acked = done(&std::fs::read(&notes).unwrap());
    acked.resize(threads as usize, 0);
    let b = std::fs::read(dir.join("p.mm_profdata")).unwrap();
    let what = format!("a recording of {threads} threads killed after {} rounds", acked.iter().sum::<u64>());
    check!(b.len() >= 8 && &b[..8] == b"MMPD\x09\0\0\0", "{what}: the file starts with {:?}", &b[..b.len().min(8)]);
    let (s, pages, rest) = torn(&b[8..]).map_err(|v| Violation { msg: format!("{what}: {}", v.msg) })?;
    // events
    let ev = &s[0];
    let mut next = vec![0u64; threads as usize];
    if !ev.is_empty() {
        check!(ev.starts_with(b"MMES\x09\0\0\0"), "{what}: event stream header {:?}", &ev[..ev.len().min(8)]);
        for (n, e) in ev[8..].chunks(32).enumerate() {
            if e.len() < 32 {
                return viol(format!("{what}: the complete event pages end in {} bytes of an event", e.len()));
            }
            let t = u32::from_le_bytes(e[16..20].try_into().unwrap());
            let v = u32::from_le_bytes(e[20..24].try_into().unwrap()) as u64;
            check!(t < threads && v == next[t as usize] & 0xFFFF_FFFF, "{what}: event {n} is of thread {t} with value {v}, expected {next:?}");
            next[t as usize] += 1;
        }
    }
    let total: u64 = acked.iter().sum::<u64>() * 32 + 8;
    check!(ev.len() as u64 + LAG as u64 >= total, "{what}: {} of at least {total} bytes of events are in the file", ev.len());
    // strings
    let st = &s[1];
    let mut pos = vec![0u64; threads as usize];
    let mut text = String::new();
    let mut n = 0;
    if !st.is_empty() {
        check!(st.starts_with(b"MMSD\x09\0\0\0"), "{what}: string stream header {:?}", &st[..st.len().min(8)]);
        let mut at = 8;
        while at < st.len() {
            let end = st[at..].iter().position(|c| *c == 0xFF).map(|k| at + k);
            let w = std::str::from_utf8(&st[at..end.unwrap_or(st.len())]).unwrap_or("?");
            if n >= 2 {
                let t = w.split('-').next().and_then(|t| t.parse::<usize>().ok()).filter(|t| *t < threads as usize);
                match t {
                    Some(t) => {
                        string(seed, t as u32, pos[t], &mut text);
                        check!(if end.is_some() { text == w } else { text.starts_with(w) }, "{what}: string {n} is {} instead of {}", show(w), show(&text));
                        pos[t] += 1;
                    }
                    None => check!(end.is_none(), "{what}: string {n} is {}", show(w)),
                }
            }
            n += 1;
            at = end.unwrap_or(st.len()) + 1;
        }
    }
    let want: u64 = acked.iter().enumerate().map(|(t, n)| (0..*n).map(|i| string_len(seed, t as u32, i).max(format!("{t}-{i}-").len()) as u64 + 1).sum::<u64>()).sum();
    check!(st.len() as u64 + LAG as u64 >= want, "{what}: {} of at least {want} bytes of strings are in the file", st.len());
    ctx.count("killed_recordings", 1);
    ctx.count("events_recovered_after_a_kill", next.iter().sum());
    ctx.count("strings_recovered_after_a_kill", pos.iter().sum());
    ctx.count("killed_within_a_page", (rest > 0) as u64);
    ctx.maxc("bytes_in_the_file_at_the_kill", b.len() as u64);
    let mut h = Hasher64::new();
    h.add(seed);
    h.add(b.len() as u64);
    ctx.eval(if pages > 1 { Some(h.0) } else { None });
    ctx.sample(|| format!("{what}: {pages} pages, {} bytes after the last; {} events recovered", rest, next.iter().sum::<u64>()));
    Ok(())
}

fn grows(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let dir = ctx.dir("c33");
    let mut c = Command::new(&ctx.exe);
    c.args(["helper", "c33", "p", &(rng.next() >> 1).to_string(), "1", "grow"]).current_dir(&dir).env_remove("LD_PRELOAD");
    let o = crate::tools::run_cmd(c, "recording process")?;
    check!(o.ok(), "the recording process failed: {}", o.brief());
    let v: Vec<u64> = o.out().split_whitespace().map(|x| x.parse().unwrap()).collect();
    check!(v[1] < v[0] + 6144, "a recording process used {} KiB after 16 MiB of data and {} KiB after {} bytes", v[0], v[1], v[2]);
    ctx.count("memory_growth_checks", 1);
    ctx.maxc("memory_growth_kib_over_80_mib_recorded", v[1].saturating_sub(v[0]));
    ctx.eval(None);
    Ok(())
}

fn run(ctx: &mut Ctx, idx: u64, rng: &mut Rng) -> R {
    if idx % 3 == 0 {
        return killed(ctx, rng);
    }
    if idx % 150 == 1 {
        return grows(ctx, rng);
    }
    // quiescent looks at the file between calls
    let path = ctx.scratch.join("c33.bin");
    let f = std::fs::File::create(&path).unwrap();
    let b = SerializationSinkBuilder::new_from_file(f).map_err(|e| Violation { msg: e.to_string() })?;
    let n = rng.range(1, 3) as usize;
    let sinks: Vec<SerializationSink> = (0..n).map(|k| b.new_sink(super::c01::TAGS[k])).collect();
    let mut model = vec![Vec::new(); n];
    let style = rng.below(4);
    let (mut looks, mut ops) = (0, 0u64);
    let mut h = Hasher64::new();
    let mut most = 0;
    while model.iter().map(|m: &Vec<u8>| m.len()).sum::<usize>() < *rng.pick(&[300_000, 900_000, 3_000_000]) && ops < 60_000 {
        let k = rng.us(n);
        let len = match style {
            0 => rng.range(1, 200),
            1 => super::c01::size(rng, 1000, 1000, true) as u64,
            2 => rng.range(1, 20_000),
            _ => 32,
        } as usize;
        let old = model[k].len();
        model[k].resize(old + len, 0);
        super::c01::fill(&mut model[k][old..], ctx.seed ^ (idx << 20) ^ ops);
        let data = &model[k][old..];
        let how = rng.below(4);
        cut("write", || match how {
            0 => drop(sinks[k].write_bytes_atomic(data)),
            1 => sinks[k].as_std_write().write_all(data).unwrap(),
            _ => drop(sinks[k].write_atomic(data.len(), |d| d.copy_from_slice(data))),
        })?;
        ops += 1;
        h.add(len as u64 * 16 + how * 4 + k as u64);
        if rng.chance(1, 200) || (style == 1 && rng.chance(1, 4)) {
            let bytes = std::fs::read(&path).unwrap();
            match refdec::pages(&bytes) {
                Ok(_) => {}
                Err(e) => return viol(format!("between two calls the file is no sequence of pages: {e}")),
            }
            let (s, pages, _) = torn(&bytes)?;
            most = most.max(pages);
            for k in 0..n {
                let (got, all) = (&s[super::c01::TAGS[k] as usize], &model[k]);
                check!(all.starts_with(got), "between two calls stream {k} in the file is no prefix of the {} bytes written", all.len());
                check!(got.len() + LAG >= all.len(), "only {} of the {} bytes written to stream {k} are in the file", got.len(), all.len());
                ctx.maxc("bytes_held_back_by_a_stream", (all.len() - got.len()) as u64);
            }
            looks += 1;
        }
    }
    ctx.count("looks_between_calls", looks);
    ctx.count("writes", ops);
    ctx.eval(if most > 1 { Some(h.0) } else { None });
    Ok(())
}

//! C12: a truncated profile never reads as different data.
use super::*;
use crate::enc::{self, Enc, Paging};
use crate::refdec;
use measureme::{EventId, EventIdBuilder, Profiler, StringId};

pub fn props() -> Vec<Prop> {
    vec![prop("C12", 1200, run, "(file, truncation point) classes: distinct files with every truncation point tried")]
}

/// Does `got` equal `orig`, with placeholders (`<...>`) in `got` standing for any text?
fn matches(got: &str, orig: &str) -> bool {
    if got == orig {
        return true;
    }
    // literal pieces between placeholders
    let mut lits: Vec<&str> = Vec::new();
    let mut rest = got;
    loop {
        match rest.find('<') {
            None => {
                lits.push(rest);
                break;
            }
            Some(i) => match rest[i..].find('>') {
                None => return false,
                Some(j) => {
                    lits.push(&rest[..i]);
                    rest = &rest[i + j + 1..];
                }
            },
        }
    }
    if lits.len() == 1 {
        return false;
    }
    let (first, last) = (lits[0], lits[lits.len() - 1]);
    if orig.len() < first.len() + last.len() || !orig.starts_with(first) || !orig.ends_with(last) {
        return false;
    }
    let mut at = first.len();
    let end = orig.len() - last.len();
    for l in &lits[1..lits.len() - 1] {
        match orig[at..end].find(l) {
            None => return false,
            Some(i) => at += i + l.len(),
        }
    }
    true
}

fn joined(e: &Ev) -> String {
    let mut s = e.label.clone();
    for a in &e.args {
        s.push('\x1E');
        s.push_str(a);
    }
    s
}

struct Seen {
    err: u64,
    full: u64,
    part: u64,
    placeholders: u64,
}

/// Reads a prefix of a profile and judges the outcome.
fn judge(pre: &[u8], evs: &[Ev], start: SystemTime, pid: u32, cmd: &str, seen: &mut Seen, what: &str) -> R {
    let pd = match cut(&format!("{what}: opening"), || ProfilingData::from_paged_buffer(pre.to_vec(), None))? {
        Err(e) => {
            cut("formatting the error", || format!("{e}"))?;
            seen.err += 1;
            return Ok(());
        }
        Ok(pd) => pd,
    };
    let m = cut(&format!("{what}: metadata()"), || pd.metadata().clone())?;
    check!(m.start_time == start && m.process_id == pid && m.cmd == cmd, "{what}: metadata reads as {m:?}");
    let n = cut(&format!("{what}: num_events()"), || pd.num_events())?;
    check!(n <= evs.len(), "{what}: {n} events, the complete file has {}", evs.len());
    let got = match read_evs(&pd, start) {
        Ok(g) => g,
        Err(v) => return viol(format!("{what}: {}", v.msg)),
    };
    check!(got.len() == n, "{what}: {} events iterated, num_events() is {n}", got.len());
    for (i, (g, w)) in got.iter().zip(evs).enumerate() {
        check!(g.tid == w.tid && g.pay == w.pay, "{what}: event {i} reads as {} but is {}", show_ev(g), show_ev(w));
        let same = g.kind == w.kind && g.label == w.label && g.args == w.args;
        if !same {
            check!(matches(&g.kind, &w.kind), "{what}: event {i}: kind {} reads as {}", show(&w.kind), show(&g.kind));
            let (a, b) = (joined(g), joined(w));
            check!(matches(&a, &b), "{what}: event {i}: text {} reads as {}", show(&b), show(&a));
            seen.placeholders += 1;
        }
    }
    if n == evs.len() {
        seen.full += 1
    } else {
        seen.part += 1
    }
    Ok(())
}

fn clean(s: &mut String) {
    if s.contains('<') || s.contains('>') {
        *s = s.replace('<', "(").replace('>', ")");
    }
}

fn clean_trace(t: &mut Trace) {
    for e in &mut t.evs {
        clean(&mut e.kind);
        clean(&mut e.label);
        for a in &mut e.args {
            clean(a);
        }
    }
}

/// The truncation points to try: all of them for small files, all near structure boundaries otherwise.
fn points(b: &[u8], rng: &mut Rng, small: usize, extra: usize) -> Vec<usize> {
    if b.len() <= small {
        return (0..=b.len()).collect();
    }
    let mut v: Vec<usize> = (0..20).collect();
    for p in refdec::pages(&b[8..]).unwrap_or_default() {
        let (s, e) = (8 + p.off - 5, 8 + p.off + p.len);
        for x in [s, e] {
            v.extend((x.saturating_sub(6))..=(x + 6).min(b.len()));
        }
        for _ in 0..4 {
            let at = 8 + p.off + rng.us(p.len);
            v.extend([at & !31, at & !15, at].into_iter().filter(|x| *x <= b.len()));
        }
    }
    for _ in 0..extra {
        v.push(rng.us(b.len() + 1));
    }
    v.sort();
    v.dedup();
    v
}

fn run(ctx: &mut Ctx, idx: u64, rng: &mut Rng) -> R {
    match idx % 16 {
        3 | 11 => recorded(ctx, idx, rng),
        5 => killed(ctx, rng),
        _ => encoded(ctx, idx, rng),
    }
}

fn tally(ctx: &mut Ctx, seen: &Seen, points: usize, key: u64) {
    ctx.count("truncation_points", points as u64);
    ctx.count("rejected", seen.err);
    ctx.count("read_as_proper_prefix", seen.part);
    ctx.count("read_with_all_events", seen.full);
    ctx.count("events_with_placeholders", seen.placeholders);
    ctx.evals += points as u64 - 1;
    ctx.eval(Some(key));
}

fn encoded(ctx: &mut Ctx, idx: u64, rng: &mut Rng) -> R {
    let big = idx % 64 == 9;
    let n = if big { rng.range(5000, 30_000) } else if rng.chance(1, 2) { rng.range(20, 150) } else { rng.logsize(25) } as usize;
    let mut t = gen_loose(rng, n, Text::Rich, if big { 400 } else { 24 }, 3);
    clean_trace(&mut t);
    let s = enc::encode(&t, 9, if rng.chance(1, 4) { Enc::Simple } else { Enc::Mixed }, rng);
    // pages of whole event records, as the library writes them, in any order and of any size
    let bytes = if rng.chance(1, 5) {
        enc::paginate(&s, Paging::Library, rng)
    } else {
        let mut out = b"MMPD".to_vec();
        out.extend_from_slice(&9u32.to_le_bytes());
        let st: [(&[u8], usize, usize); 3] = [(&s.events, 8, 32), (&s.data, 0, 1), (&s.index, if rng.chance(3, 4) { 8 } else { 0 }, if rng.chance(3, 4) { 16 } else { 1 })];
        let mut pos = [0usize; 3];
        // sometimes one stream is held back, like a buffer that fills slowly
        let late = rng.us(4);
        let fine = rng.chance(2, 3);
        loop {
            let live: Vec<usize> = (0..3).filter(|&i| pos[i] < st[i].0.len()).collect();
            if live.is_empty() {
                break;
            }
            let mut i = *rng.pick(&live);
            if i == late && live.len() > 1 && rng.chance(9, 10) {
                i = *live.iter().find(|x| **x != late).unwrap();
            }
            let (b, head, unit) = st[i];
            let left = b.len() - pos[i];
            let want = if big { rng.range(1, enc::PAGE as u64) } else if fine { rng.range(1, 90) } else { rng.logsize(left as u64).max(1) } as usize;
            let mut k = want.div_ceil(unit) * unit;
            if pos[i] == 0 {
                k = head + (k - unit) + if rng.chance(1, 2) { unit } else { 0 };
            }
            let k = k.clamp(1, left);
            enc::put_page(&mut out, i as u8, &b[pos[i]..pos[i] + k]);
            pos[i] += k;
        }
        out
    };
    let start = start_of(&t);
    let pts = points(&bytes, rng, if ctx.quick() { 4000 } else { 12_000 }, 40);
    let mut seen = Seen { err: 0, full: 0, part: 0, placeholders: 0 };
    for &p in &pts {
        judge(&bytes[..p], &t.evs, start, t.pid, &t.cmd, &mut seen, &format!("file of {} bytes cut at {p}", bytes.len()))?;
    }
    check!(seen.full > 0, "the complete file was not read");
    tally(ctx, &seen, pts.len(), hash_bytes(&bytes));
    ctx.sample(|| format!("{} bytes, {} events: {} points, {} rejected, {} proper prefixes, {} complete", bytes.len(), t.evs.len(), pts.len(), seen.err, seen.part, seen.full));
    Ok(())
}

fn word(i: u64) -> String {
    let mut h = Rng::new(i);
    let n = h.range(1, 30) as usize;
    let mut s = text_len(&mut h, Text::Rich, n);
    clean(&mut s);
    if s.is_empty() {
        s.push('w');
    }
    s
}

/// Records `n` deterministic events; `f` is called after each.
pub fn record(p: &Profiler, seed: u64, n: u64, mut f: impl FnMut(u64)) {
    let b = EventIdBuilder::new(p);
    let mut rng = Rng::new(seed);
    let mut ids: Vec<StringId> = (0..20u64).map(|i| p.alloc_string(&word(i)[..])).collect();
    let mut virt = 0u64;
    for i in 0..n {
        if rng.chance(1, 4) {
            let w = word(ids.len() as u64);
            let id = p.alloc_string(&w[..]);
            if rng.chance(1, 2) {
                let v = StringId::new_virtual(virt);
                virt += 1;
                p.map_virtual_to_concrete_string(v, id);
                ids.push(v);
            } else {
                ids.push(id);
            }
        }
        if rng.chance(1, 200) {
            // unrelated bulk mappings
            let k = rng.below(2000);
            let c = ids[0];
            p.bulk_map_virtual_to_single_concrete_string((0..k as u32).map(|j| StringId::new_virtual(50_000_000 + virt * 2000 + j as u64)), c);
        }
        let (k, l, a) = (rng.us(ids.len()), rng.us(ids.len()), rng.us(ids.len()));
        let (ko, lo, ao) = (ids[k], ids[l], ids[a]);
        let id = if rng.chance(1, 2) { EventId::from_label(lo) } else { b.from_label_and_arg(lo, ao) };
        let tid = rng.below(5) as u32;
        match rng.below(3) {
            0 => p.record_integer_event(ko, id, tid, i),
            1 => p.record_instant_event(ko, id, tid),
            _ => drop(p.start_recording_interval_event(ko, id, tid)),
        }
        f(i);
    }
}

/// What `record` records, times excepted.
pub fn recorded_evs(seed: u64, n: u64) -> Vec<Ev> {
    let mut rng = Rng::new(seed);
    let mut ids: Vec<String> = (0..20u64).map(word).collect();
    let mut virt = 0u64;
    (0..n)
        .map(|i| {
            if rng.chance(1, 4) {
                ids.push(word(ids.len() as u64));
                if rng.chance(1, 2) {
                    virt += 1;
                }
            }
            if rng.chance(1, 200) {
                rng.below(2000);
            }
            let (k, l, a) = (rng.us(ids.len()), rng.us(ids.len()), rng.us(ids.len()));
            let args = if rng.chance(1, 2) { vec![] } else { vec![ids[a].clone()] };
            let tid = rng.below(5) as u32;
            let pay = match rng.below(3) {
                0 => Pay::Integer(i),
                1 => Pay::Instant(0),
                _ => Pay::Interval(0, 0),
            };
            Ev { kind: ids[k].clone(), label: ids[l].clone(), args, tid, pay }
        })
        .collect()
}

/// Real recordings: copies of the file taken while it is written, and prefixes of the finished file.
fn recorded(ctx: &mut Ctx, idx: u64, rng: &mut Rng) -> R {
    let dir = ctx.dir("c12");
    let stem = dir.join("p");
    let path = dir.join("p.mm_profdata");
    let n = if idx % 16 == 11 { rng.range(9_000, 40_000) } else { rng.logsize(400) };
    let seed = rng.next();
    let p = match cut("Profiler::new", || Profiler::new(&stem))? {
        Ok(p) => p,
        Err(e) => return viol(format!("Profiler::new failed: {e}")),
    };
    let mut copies: Vec<Vec<u8>> = Vec::new();
    let at: Vec<u64> = (0..8).map(|_| rng.below(n + 1)).collect();
    let r: R = cut("recording", || {
        record(&p, seed, n, |i| {
            if at.contains(&i) {
                copies.push(std::fs::read(&path).unwrap());
            }
        });
        Ok(())
    })?;
    r?;
    cut("dropping the profiler", || drop(p))?;
    let bytes = std::fs::read(&path).map_err(|e| Violation { msg: format!("no profile: {e}") })?;
    let pd = open_bytes(bytes.clone())?;
    let m = pd.metadata().clone();
    let evs = read_evs(&pd, m.start_time)?;
    check!(evs.len() as u64 == n, "{} events of {n} in the complete file", evs.len());
    let mut seen = Seen { err: 0, full: 0, part: 0, placeholders: 0 };
    for c in &copies {
        judge(c, &evs, m.start_time, m.process_id, &m.cmd, &mut seen, &format!("copy of {} bytes taken while recording (complete file: {} bytes)", c.len(), bytes.len()))?;
    }
    let pts = points(&bytes, rng, 6000, 60);
    for &c in &pts {
        judge(&bytes[..c], &evs, m.start_time, m.process_id, &m.cmd, &mut seen, &format!("recording of {} bytes cut at {c}", bytes.len()))?;
    }
    ctx.count("copies_taken_while_recording", copies.len() as u64);
    tally(ctx, &seen, pts.len(), hash_bytes(&bytes));
    Ok(())
}

/// helper: c12 STEM SEED N HOW
pub fn helper(args: &[String]) {
    let (stem, seed, n, at): (_, u64, u64, u64) = (PathBuf::from(&args[0]), args[1].parse().unwrap(), args[2].parse().unwrap(), args[3].parse().unwrap());
    let p = Profiler::new(&stem).unwrap();
    record(&p, seed, n, |i| {
        if i == at {
            unsafe { libc::kill(libc::getpid(), libc::SIGKILL) };
        }
    });
    unsafe { libc::_exit(0) }
}

/// A recording process that dies without dropping its profiler.
fn killed(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let dir = ctx.dir("c12k");
    let seed = rng.next();
    let n = if rng.chance(1, 4) { rng.range(1, 20_000) } else { rng.range(20_000, 150_000) };
    let at = rng.below(n + n / 8 + 1);
    let mut c = std::process::Command::new(&ctx.exe);
    c.args(["helper", "c12"]).arg(dir.join("p")).args([seed.to_string(), n.to_string(), at.to_string()]).env_remove("LD_PRELOAD");
    let timed = rng.chance(1, 3);
    if timed {
        let mut ch = c.stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn().expect("spawn");
        std::thread::sleep(Duration::from_micros(rng.range(500, 60_000)));
        let _ = ch.kill();
        ch.wait().unwrap();
    } else {
        let o = crate::tools::run_cmd(c, "recording process")?;
        check!(o.signal == Some(libc::SIGKILL) || o.ok(), "the recording process failed by itself: {}", o.brief());
    }
    let bytes = match std::fs::read(dir.join("p.mm_profdata")) {
        Ok(b) => b,
        Err(_) => {
            check!(timed, "no profile file");
            return Ok(());
        }
    };
    let mut evs = recorded_evs(seed, n);
    let mut seen = Seen { err: 0, full: 0, part: 0, placeholders: 0 };
    if let Ok(pd) = cut("opening the file of a killed process", || ProfilingData::from_paged_buffer(bytes.clone(), None))? {
        // times cannot be known; they have to be plausible and are otherwise taken over
        let m = cut("metadata()", || pd.metadata().clone())?;
        let got = read_evs(&pd, m.start_time)?;
        check!(got.len() <= evs.len(), "{} events read, {} recorded", got.len(), evs.len());
        let mut last = 0;
        for (i, g) in got.iter().enumerate() {
            let t = match (&g.pay, &evs[i].pay) {
                (Pay::Interval(a, b), Pay::Interval(..)) => {
                    check!(a <= b && *b < 600_000_000_000, "event {i} of a killed process reads as {}", show_ev(g));
                    *b
                }
                (Pay::Instant(a), Pay::Instant(_)) => *a,
                (Pay::Integer(a), Pay::Integer(b)) if a == b => continue,
                _ => return viol(format!("event {i} of a killed process reads as {} but was {}", show_ev(g), show_ev(&evs[i]))),
            };
            check!(t >= last && t < 600_000_000_000, "event {i} of a killed process is out of order: {}", show_ev(g));
            last = t;
            evs[i].pay = g.pay.clone();
        }
        check!(m.process_id != std::process::id(), "metadata of the wrong process");
        judge(&bytes, &evs, m.start_time, m.process_id, &m.cmd, &mut seen, "file of a killed process")?;
    } else {
        seen.err += 1;
    }
    ctx.count("killed_processes", 1);
    ctx.count("killed_process_files_readable", seen.full + seen.part);
    tally(ctx, &seen, 1, hash_bytes(&bytes));
    Ok(())
}

//! C27: a panic in one write leaves the rest of the stream intact.
use super::c01::{fill, size, TAGS};
use super::*;
use crate::refdec;
use measureme::{EventId, Profiler, SerializableString, SerializationSink, SerializationSinkBuilder, StringComponent, StringId};
use std::io::Write;
use std::sync::{Arc, Barrier};

pub fn props() -> Vec<Prop> {
    vec![prop("C27", 10000, run, "histories (streams, sizes, positions of the panics, threads) that differ and hold a panic with a write of the same stream before and after it")]
}

fn content(id: u64, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    fill(&mut v, id);
    v
}

struct W {
    sink: usize,
    id: u64,
    n: usize,
    addr: u64,
}

#[derive(Default)]
struct Log {
    ok: Vec<W>,
    /// bytes that panicking writes asked for, per stream
    lost: [u64; 3],
    panics: u64,
    /// a panic that had a successful write before and after it
    between: u64,
    h: u64,
}

const MSG: &str = "deliberate panic of the workload";

/// Runs a write that panics deliberately; anything else is a violation.
fn must_panic<T>(what: &str, f: impl FnOnce() -> T) -> R {
    match traps(f) {
        Ok(_) => viol(format!("{what}: the panic of the caller's code was swallowed")),
        Err(_) => Ok(()),
    }
}

fn writer(sinks: &[Arc<SerializationSink>], rng: &mut Rng, base: u64, ops: u64, big: bool, budget: usize, dies: bool) -> R<Log> {
    let mut log = Log::default();
    let mut h = Hasher64::new();
    let mut total = 0;
    let mut open = [false; 3];
    let mut pending = [0u64; 3];
    for op in 0..ops {
        let k = rng.us(sinks.len());
        let s = &sinks[k];
        let n = if big { size(rng, 70_000, 190_000, true) } else { size(rng, 3000, 9000, false) };
        total += n;
        if total > budget {
            break;
        }
        let id = base | op;
        let fail = rng.chance(1, 4);
        h.add(n as u64 * 8 + k as u64 * 2 + fail as u64);
        if fail {
            let done = match rng.below(4) {
                0 => 0,
                1 => n,
                2 => n.saturating_sub(1),
                _ => rng.us(n + 1),
            };
            let what = format!("write_atomic({n}) whose callback panics after {done} bytes");
            let junk = rng.below(256) as u8;
            must_panic(&what, || {
                s.write_atomic(n, |d| {
                    for b in &mut d[..done] {
                        *b = junk;
                    }
                    panic!("{MSG}");
                })
            })?;
            log.lost[k] += n as u64;
            log.panics += 1;
            if open[k] {
                pending[k] += 1;
            }
            continue;
        }
        let data = content(id, n);
        let addr = match rng.below(3) {
            0 => cut("write_bytes_atomic", || s.write_bytes_atomic(&data))?.0,
            _ => {
                let mut seen = usize::MAX;
                let a = cut("write_atomic", || {
                    s.write_atomic(n, |d| {
                        seen = d.len();
                        if d.len() == n {
                            d.copy_from_slice(&data);
                        }
                    })
                })?;
                check!(seen == n, "after {} panics: write_atomic({n}) gave its callback {seen} bytes", log.panics);
                a.0
            }
        };
        log.ok.push(W { sink: k, id, n, addr });
        open[k] = true;
        log.between += pending[k];
        pending[k] = 0;
        if rng.chance(1, 60) {
            let r = cut("flush", || s.as_std_write().flush().map_err(|e| e.to_string()))?;
            check!(r.is_ok(), "flush failed: {r:?}");
        }
    }
    log.h = h.0;
    if dies {
        // the thread itself ends with a panic in a write
        let n = rng.range(1, 300) as usize;
        log.lost[0] += n as u64;
        log.panics += 1;
        let s = sinks[0].clone();
        let r = std::thread::spawn(move || {
            s.write_atomic(n, |_| panic!("{MSG}"));
        })
        .join();
        check!(r.is_err(), "the panic of the caller's code was swallowed");
    }
    Ok(log)
}

fn verify(stream: &[u8], k: usize, logs: &[Log], tag: &str) -> R {
    let mut all: Vec<&W> = logs.iter().flat_map(|l| &l.ok).filter(|w| w.sink == k).collect();
    all.sort_by_key(|w| (w.addr, w.addr + w.n as u64));
    let mut end = 0u64;
    let lost: u64 = logs.iter().map(|l| l.lost[k]).sum();
    for w in &all {
        let what = format!("stream {tag} of {} bytes: the {} bytes written at address {}", stream.len(), w.n, w.addr);
        check!(w.addr >= end, "{what} overlap the data before them, which ends at {end}");
        let e = w.addr as usize + w.n;
        check!(e <= stream.len(), "{what} run past the end of the stream");
        end = e as u64;
        let want = content(w.id, w.n);
        let got = &stream[w.addr as usize..e];
        if got != want {
            let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap();
            return viol(format!("{what} differ from offset {at} on ({} panicking writes in all threads)", logs.iter().map(|l| l.panics).sum::<u64>()));
        }
    }
    let good: u64 = all.iter().map(|w| w.n as u64).sum();
    check!(stream.len() as u64 <= good + lost, "stream {tag} has {} bytes, but only {good} were written and {lost} attempted", stream.len());
    Ok(())
}

fn streams_case(ctx: &mut Ctx, idx: u64, rng: &mut Rng) -> R {
    let in_file = rng.chance(1, 2);
    let nsinks = rng.range(1, 3) as usize;
    let nthreads = if rng.chance(1, 2) { 1 } else { rng.range(2, 6) as usize };
    let mut tags = TAGS.to_vec();
    rng.shuffle(&mut tags);
    tags.truncate(nsinks);
    let path = ctx.scratch.join("c27.bin");
    let b = if in_file {
        let f = std::fs::File::create(&path).unwrap();
        SerializationSinkBuilder::new_from_file(f).map_err(|e| Violation { msg: e.to_string() })?
    } else {
        SerializationSinkBuilder::new_in_memory()
    };
    let sinks: Vec<Arc<SerializationSink>> = tags.iter().map(|t| Arc::new(b.new_sink(*t))).collect();
    drop(b);
    let big = rng.chance(1, 2);
    let ops = if big { rng.range(3, 40) } else { rng.range(5, 400) };
    let budget = (6usize << 20) / nthreads;
    let mut logs = Vec::new();
    if nthreads == 1 {
        let dies = rng.chance(1, 8);
        logs.push(writer(&sinks, rng, idx << 20, ops, big, budget, dies)?);
    } else {
        let barrier = Arc::new(Barrier::new(nthreads));
        let hs: Vec<_> = (0..nthreads)
            .map(|t| {
                let (sinks, barrier, mut rng) = (sinks.clone(), barrier.clone(), rng.fork());
                let dies = rng.chance(1, 8);
                std::thread::spawn(move || {
                    barrier.wait();
                    writer(&sinks, &mut rng, (idx << 24) | ((t as u64 + 1) << 16), ops, big, budget, dies)
                })
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok(l) => logs.push(l?),
                Err(_) => return viol("a writer thread panicked outside its deliberate panics"),
            }
        }
    }
    if in_file {
        cut("dropping the streams", || drop(sinks))?;
        let s = match refdec::streams(&std::fs::read(&path).unwrap()) {
            Ok(s) => s,
            Err(e) => return viol(format!("the file is not a sequence of pages: {e}")),
        };
        for k in 0..nsinks {
            verify(&s[tags[k] as usize], k, &logs, &format!("{:?} in a file", tags[k]))?;
        }
    } else {
        for (k, s) in sinks.into_iter().enumerate() {
            let s = match Arc::try_unwrap(s) {
                Ok(s) => s,
                Err(_) => unreachable!(),
            };
            let got = cut("into_bytes", || s.into_bytes())?;
            verify(&got, k, &logs, &format!("{:?} in memory", tags[k]))?;
        }
    }
    let (p, b): (u64, u64) = logs.iter().fold((0, 0), |a, l| (a.0 + l.panics, a.1 + l.between));
    ctx.count("panicking_writes", p);
    ctx.count("panics_between_writes_of_the_same_stream_and_thread", b);
    ctx.count("writes_checked", logs.iter().map(|l| l.ok.len() as u64).sum());
    ctx.count(if nthreads > 1 { "concurrent_histories" } else { "sequential_histories" }, 1);
    let mut h = Hasher64::new();
    for l in &logs {
        h.add(l.h);
    }
    ctx.eval(if b > 0 { Some(h.0) } else { None });
    ctx.sample(|| format!("{nthreads} threads on {nsinks} streams, {p} panicking writes"));
    Ok(())
}

/// A string whose serialization panics.
struct Bad {
    n: usize,
    done: usize,
    at_size: bool,
}

impl SerializableString for Bad {
    fn serialized_size(&self) -> usize {
        if self.at_size {
            panic!("{MSG}");
        }
        self.n
    }
    fn serialize(&self, b: &mut [u8]) {
        for x in &mut b[..self.done] {
            *x = b'#';
        }
        panic!("{MSG}");
    }
}

/// A list of ids that panics while it is being read.
struct BadIds(usize, usize);

impl Iterator for BadIds {
    type Item = StringId;
    fn next(&mut self) -> Option<StringId> {
        if self.0 == self.1 {
            panic!("{MSG}");
        }
        self.0 += 1;
        Some(StringId::new_virtual(self.0 as u64))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.1 + 5, Some(self.1 + 5))
    }
}
impl ExactSizeIterator for BadIds {}

#[derive(Default)]
struct Rec {
    evs: Vec<(String, String, u32, u64)>,
    strings: Vec<(StringId, String)>,
    unwound: u64,
    panics: u64,
    h: u64,
}

fn recorder(p: &Profiler, rng: &mut Rng, me: u32, ops: u64) -> R<Rec> {
    let mut r = Rec::default();
    let mut h = Hasher64::new();
    let mut n = 0u64;
    let mut virt = 1_000_000 * (me as u64 + 1);
    r.strings.push((cut("alloc_string", || p.alloc_string("start"))?, "start".into()));
    for _ in 0..ops {
        let what = rng.below(9);
        h.add(what);
        match what {
            0 | 1 => {
                // a string whose writing panics
                let n = match rng.below(8) {
                    0 => 0,
                    1 => rng.range(262_000, 263_000) as usize,
                    2 => rng.range(1, 300_000) as usize,
                    _ => rng.range(1, 200) as usize,
                };
                let bad = Bad { n, done: rng.us(n + 1), at_size: rng.chance(1, 6) };
                must_panic("alloc_string of a string that panics", || p.alloc_string(&bad))?;
                r.panics += 1;
                h.add(n as u64);
            }
            2 => {
                let target = rng.pick(&r.strings).0;
                if !target.is_virtual() {
                    let k = rng.below(20) as usize;
                    must_panic("bulk mapping of a panicking list", || p.bulk_map_virtual_to_single_concrete_string(BadIds(0, k), target))?;
                    r.panics += 1;
                }
            }
            3 | 4 => {
                let s = text1(rng, Text::Rich, 60);
                let id = match r.strings.last() {
                    Some((l, t)) if rng.chance(1, 2) => {
                        let id = cut("alloc_string", || p.alloc_string(&[StringComponent::Value(&s), StringComponent::Ref(*l)]))?;
                        let full = format!("{s}{t}");
                        if full.len() < 5000 {
                            r.strings.push((id, full));
                            continue;
                        }
                        cut("alloc_string", || p.alloc_string(&s[..]))?
                    }
                    _ => cut("alloc_string", || p.alloc_string(&s[..]))?,
                };
                r.strings.push((id, s));
            }
            5 => {
                let (id, s) = rng.pick(&r.strings).clone();
                if !id.is_virtual() {
                    virt += 1;
                    let v = StringId::new_virtual(virt);
                    cut("map", || p.map_virtual_to_concrete_string(v, id))?;
                    r.strings.push((v, s));
                }
            }
            6 => {
                // timing guards that end because their scope panics
                let (k, l) = (rng.pick(&r.strings).clone(), rng.pick(&r.strings).clone());
                let depth = rng.range(1, 4);
                must_panic("a panicking measured scope", || {
                    let _gs: Vec<_> = (0..depth).map(|_| p.start_recording_interval_event(k.0, EventId::from_label(l.0), me)).collect();
                    panic!("{MSG}");
                })?;
                for _ in 0..depth {
                    r.evs.push((k.1.clone(), l.1.clone(), me, u64::MAX));
                }
                r.unwound += depth;
                r.panics += 1;
            }
            _ => {
                let (k, l) = (rng.pick(&r.strings).clone(), rng.pick(&r.strings).clone());
                n += 1;
                let v = (me as u64) << 32 | n;
                cut("record_integer_event", || p.record_integer_event(k.0, EventId::from_label(l.0), me, v))?;
                r.evs.push((k.1, l.1, me, v));
            }
        }
    }
    r.h = h.0;
    Ok(r)
}

fn profile_case(ctx: &mut Ctx, _idx: u64, rng: &mut Rng) -> R {
    let stem = ctx.dir("c27").join("p");
    let p = match cut("Profiler::new", || Profiler::new(&stem).map_err(|e| e.to_string()))? {
        Ok(p) => Arc::new(p),
        Err(e) => return viol(format!("Profiler::new: {e}")),
    };
    let nthreads = if rng.chance(1, 2) { 1 } else { rng.range(2, 5) as usize };
    let ops = rng.range(5, 150);
    let mut recs = Vec::new();
    if nthreads == 1 {
        recs.push(recorder(&p, rng, 1, ops)?);
    } else {
        let hs: Vec<_> = (0..nthreads)
            .map(|t| {
                let (p, mut rng) = (p.clone(), rng.fork());
                std::thread::spawn(move || recorder(&p, &mut rng, t as u32, ops))
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok(l) => recs.push(l?),
                Err(_) => return viol("a recording thread panicked outside its deliberate panics"),
            }
        }
    }
    // refer to every string by an event
    let mark = cut("alloc_string", || p.alloc_string("mark"))?;
    let mut marks = Vec::new();
    for r in &recs {
        for (id, s) in &r.strings {
            cut("record_integer_event", || p.record_integer_event(mark, EventId::from_virtual(*id), 99, 0))?;
            marks.push(s.clone());
        }
    }
    cut("dropping the profiler", || drop(p))?;
    let pd = open_file(&stem.with_extension("mm_profdata"))?;
    let got = read_evs(&pd, pd.metadata().start_time)?;
    let joined = |e: &Ev| {
        let mut s = e.label.clone();
        for a in &e.args {
            s.push('\x1E');
            s.push_str(a);
        }
        s
    };
    let panics: u64 = recs.iter().map(|r| r.panics).sum();
    for (t, r) in recs.iter().enumerate() {
        let me = if nthreads == 1 { 1 } else { t as u32 };
        let mine: Vec<&Ev> = got.iter().filter(|e| e.tid == me && e.kind != "mark").collect();
        check!(mine.len() == r.evs.len(), "thread {t}: {} events read of {} recorded around {panics} panics", mine.len(), r.evs.len());
        for (i, (g, w)) in mine.iter().zip(&r.evs).enumerate() {
            let pay_ok = match g.pay {
                Pay::Integer(v) => v == w.3,
                Pay::Interval(..) => w.3 == u64::MAX,
                _ => false,
            };
            check!(g.kind == w.0 && joined(g) == w.1 && pay_ok, "thread {t}: event {i} reads as {} instead of kind {} label {} ({panics} panics)", show_ev(g), show(&w.0), show(&w.1));
        }
    }
    let m: Vec<&Ev> = got.iter().filter(|e| e.kind == "mark").collect();
    check!(m.len() == marks.len(), "{} of {} marking events read", m.len(), marks.len());
    for (g, w) in m.iter().zip(&marks) {
        check!(joined(g) == *w, "a string created as {} reads as {} ({panics} panics)", show(w), show(&joined(g)));
    }
    ctx.count("panicking_operations_on_profilers", panics);
    ctx.count("intervals_ended_by_unwinding", recs.iter().map(|r| r.unwound).sum());
    ctx.count("strings_checked", marks.len() as u64);
    ctx.count("profiles", 1);
    let mut h = Hasher64::new();
    for r in &recs {
        h.add(r.h);
    }
    ctx.eval(if panics > 0 { Some(h.0) } else { None });
    Ok(())
}

fn run(ctx: &mut Ctx, idx: u64, rng: &mut Rng) -> R {
    if rng.chance(1, 3) {
        profile_case(ctx, idx, rng)
    } else {
        streams_case(ctx, idx, rng)
    }
}

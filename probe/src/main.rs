//! Small workloads for interpreters: each case records and reads a little, on
//! several threads, and checks the outcome. Run natively, under Miri, and under
//! Miri for machines of the other byte order.
//!
//! probe SCENARIO|all --seed S --from A --to B --dir D
//! probe canary KIND
#![allow(dead_code)]
#[path = "../../harness/src/canary.rs"]
mod canary;
#[path = "../../harness/src/core.rs"]
mod core;
#[path = "../../harness/src/enc.rs"]
mod enc;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../harness/src/refdec.rs"]
mod refdec;
#[path = "../../harness/src/util.rs"]
mod util;

use crate::enc::{Enc, Paging};
use crate::util::*;
use measureme::*;
use std::sync::Arc;

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

const SCENARIOS: [(&str, fn(&mut Ctx, &mut Rng) -> R); 8] = [
    ("record", record),
    ("sinks", sinks),
    ("table", table),
    ("read", read),
    ("damaged", damaged),
    ("raw", raw),
    ("builder", builder),
    ("hostile", hostile),
];

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args[1] == "canary" {
        return canary::canary(&args[2]);
    }
    let num = |n: &str, d: u64| arg(&args, n).map(|a| a.parse::<u64>().unwrap()).unwrap_or(d);
    let (seed, from, to) = (num("--seed", 1), num("--from", 0), num("--to", 8));
    let secs = num("--secs", 1 << 30);
    let dir = PathBuf::from(arg(&args, "--dir").expect("--dir"));
    install_panic_hook();
    let mut ctx = Ctx {
        tier: Tier::Quick,
        seed,
        idx: 0,
        evals: 0,
        distinct: Default::default(),
        counters: Default::default(),
        samples: Vec::new(),
        max_samples: 1,
        scratch: dir,
        tools: PathBuf::new(),
        shim: PathBuf::new(),
        exe: PathBuf::new(),
    };
    let begin = std::time::Instant::now();
    let mut done = 0;
    let mut long = None;
    if from < to {
        let mut begin_long = |ctx: &mut Ctx| Ok(Long::begin(&ctx.dir("long")));
        match cut("long", || begin_long(&mut ctx)) {
            Ok(Ok(l)) => long = Some(l),
            Ok(Err(v)) | Err(v) => failed("long", 0, seed, v),
        }
    }
    for idx in from..to {
        if begin.elapsed().as_secs() >= secs {
            break;
        }
        let (name, f) = if args[1] == "all" {
            SCENARIOS[(idx % SCENARIOS.len() as u64) as usize]
        } else {
            *SCENARIOS.iter().find(|s| s.0 == args[1]).expect("unknown scenario")
        };
        ctx.idx = idx;
        // shown if the interpreter stops here
        println!("CASE {idx} {name}");
        let mut rng = Rng::new(mix(seed) ^ mix(idx.wrapping_mul(77)));
        match cut(name, || f(&mut ctx, &mut rng)) {
            Ok(Ok(())) => {
                ctx.count(name, 1);
                ctx.evals += 1;
                done += 1;
            }
            Ok(Err(v)) | Err(v) => failed(name, idx, seed, v),
        }
    }
    if let Some(l) = long {
        match cut("long", || l.end(&mut ctx)) {
            Ok(Ok(())) => {}
            Ok(Err(v)) | Err(v) => failed("long", to, seed, v),
        }
    }
    for (k, v) in &ctx.counters {
        println!("COUNT {k} {v}");
    }
    for k in &ctx.distinct {
        println!("KEY {k}");
    }
    println!("PROBE-DONE {} cases, {} endian, {} bit", done, if cfg!(target_endian = "big") { "big" } else { "little" }, usize::BITS);
}

fn failed(name: &str, idx: u64, seed: u64, v: Violation) -> ! {
    println!("PROBE-VIOLATION case {idx} ({name}, seed {seed}): {}", v.msg.replace('\n', "\\n"));
    std::process::exit(10);
}

/// A profile recorded during the whole run of this process, longer than 32 bits of
/// nanoseconds can tell.
struct Long {
    p: Profiler,
    stem: PathBuf,
    /// Before and after the profiler was made.
    made: (std::time::Instant, std::time::Instant),
    /// Before and after the interval was started.
    started: (std::time::Instant, std::time::Instant),
    guard: DetachedTiming,
    k: StringId,
    e: EventId,
}

impl Long {
    fn begin(dir: &std::path::Path) -> Long {
        let now = std::time::Instant::now;
        let stem = dir.join("long");
        let a = now();
        let p = Profiler::new(&stem).expect("a profiler in an empty directory");
        let b = now();
        let k = p.alloc_string("kind");
        let e = EventId::from_label(p.alloc_string("label"));
        let c = now();
        let guard = p.start_recording_interval_event_detached(k, e, 3);
        Long { p, stem, made: (a, b), started: (c, now()), guard, k, e }
    }

    fn end(self, ctx: &mut Ctx) -> R {
        let now = std::time::Instant::now;
        let c = now();
        self.p.finish_recording_interval_event(self.guard);
        let d = now();
        self.p.record_instant_event(self.k, self.e, 4);
        let f = now();
        drop(self.p);
        let pd = open_file(&self.stem)?;
        let evs = read_evs(&pd, pd.metadata().start_time)?;
        // the time since the profiler was made, of something between two readings
        let bounds = |x: (std::time::Instant, std::time::Instant)| ((x.0 - self.made.1).as_nanos() as u64, (x.1 - self.made.0).as_nanos() as u64);
        let (s, e, i) = (bounds(self.started), bounds((c, d)), bounds((d, f)));
        let within = |t: u64, b: (u64, u64)| b.0 <= t && t <= b.1;
        check!(evs.len() == 2, "{} events instead of 2", evs.len());
        match (evs[0].pay.clone(), evs[1].pay.clone()) {
            (Pay::Interval(x, y), Pay::Instant(z)) => {
                check!(within(x, s) && within(y, e) && within(z, i), "an interval {x}..{y} and an instant {z}, recorded {s:?} to {e:?} and {i:?} ns after the profiler was made")
            }
            p => return viol(format!("recorded an interval and an instant, read {p:?}")),
        }
        if e.0 >> 32 != 0 {
            ctx.count("events_after_more_than_32_bits_of_ns", 1);
        }
        Ok(())
    }
}

fn small(rng: &mut Rng) -> String {
    text1(rng, Text::Rich, 12)
}

/// What a thread recorded: kind, label, arguments, and the payload if it is an integer.
type Done = (String, String, Vec<String>, u32, Option<u64>, bool);

fn record_thread(p: &Profiler, tid: u32, mut rng: Rng, shared: &[(StringId, String)], vbase: u64) -> Vec<Done> {
    let b = EventIdBuilder::new(p);
    let mut own: Vec<(StringId, String)> = shared.to_vec();
    let mut done: Vec<Done> = Vec::new();
    let n = rng.range(2, 8);
    let mut virt = vbase;
    for _ in 0..n {
        match rng.below(5) {
            0 => {
                let s = small(&mut rng);
                own.push((p.alloc_string(&s[..]), s));
            }
            1 => {
                let s = small(&mut rng);
                let (r, t) = rng.pick(shared).clone();
                let v = StringId::new_virtual(virt);
                virt += 1;
                p.map_virtual_to_concrete_string(v, r);
                own.push((v, t.clone()));
                let id = p.alloc_string(&[StringComponent::Ref(v), StringComponent::Value(&s)]);
                own.push((id, format!("{t}{s}")));
            }
            2 => {
                let (r, t) = rng.pick(shared).clone();
                let k = rng.range(0, 5);
                let ids: Vec<StringId> = (0..k).map(|i| StringId::new_virtual(virt + i)).collect();
                virt += k;
                p.bulk_map_virtual_to_single_concrete_string(ids.iter().copied(), r);
                own.extend(ids.into_iter().map(|i| (i, t.clone())));
            }
            _ => {}
        }
        let (k, kt) = rng.pick(&own).clone();
        let (l, lt) = rng.pick(&own).clone();
        let args: Vec<(StringId, String)> = (0..rng.below(3)).map(|_| rng.pick(&own).clone()).collect();
        let ids: Vec<StringId> = args.iter().map(|a| a.0).collect();
        let id = match args.len() {
            0 => EventId::from_label(l),
            1 => b.from_label_and_arg(l, ids[0]),
            _ => b.from_label_and_args(l, &ids),
        };
        let at: Vec<String> = args.into_iter().map(|a| a.1).collect();
        let mut d = (kt, lt, at, tid, None, true);
        match rng.below(6) {
            0 => {
                let v = val48(&mut rng, MAX_SINGLE);
                p.record_integer_event(k, id, tid, v);
                d.4 = Some(v);
            }
            1 => {
                p.record_instant_event(k, id, tid);
                d.5 = false;
            }
            2 => {
                let g = p.start_recording_interval_event_detached(k, id, tid);
                p.finish_recording_interval_event(g);
            }
            3 => {
                let g = p.start_recording_interval_event(k, EventId::INVALID, tid);
                g.finish_with_override_event_id(id);
            }
            _ => {
                let g = p.start_recording_interval_event(k, id, tid);
                std::thread::yield_now();
                drop(g);
            }
        }
        done.push(d);
    }
    done
}

/// A profiler used by several threads, its file read by the library and by the reference decoder.
fn record(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let dir = ctx.dir("probe");
    let stem = dir.join("p");
    let p = match Profiler::new(&stem) {
        Ok(p) => Arc::new(p),
        Err(e) => return viol(format!("Profiler::new: {e}")),
    };
    let shared: Vec<(StringId, String)> = (0..rng.range(1, 3))
        .map(|_| {
            let s = small(rng);
            (p.alloc_string(&s[..]), s)
        })
        .collect();
    let nt = rng.range(1, 3);
    let mut all: Vec<Vec<Done>> = vec![];
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..nt)
            .map(|t| {
                let r = rng.fork();
                let (p, shared) = (&p, &shared);
                s.spawn(move || record_thread(p, t as u32 + 1, r, shared, 1000 * t))
            })
            .collect();
        for h in hs {
            all.push(h.join().expect("recording thread"));
        }
    });
    // the last use may be on another thread
    let p2 = p.clone();
    drop(p);
    if rng.chance(1, 2) {
        std::thread::spawn(move || drop(p2)).join().unwrap();
    } else {
        drop(p2);
    }
    let bytes = std::fs::read(stem.with_extension("mm_profdata")).map_err(|e| Violation { msg: e.to_string() })?;
    let dec = refdec::decode(&bytes).map_err(|e| Violation { msg: format!("the file violates the format: {e}") })?;
    let mut by_tid: std::collections::BTreeMap<u32, Vec<Ev>> = Default::default();
    let mut reference: Vec<Ev> = vec![];
    for r in &dec.raw {
        let e = dec.ev(r).map_err(|e| Violation { msg: e.to_string() })?;
        by_tid.entry(e.tid).or_default().push(e.clone());
        reference.push(e);
    }
    let pd = open_file(&stem)?;
    let lib = read_evs(&pd, pd.metadata().start_time)?;
    same_evs(&lib, &reference, "reading what was recorded")?;
    let mut h = Hasher64::new();
    for (t, want) in all.iter().enumerate() {
        let got = by_tid.remove(&(t as u32 + 1)).unwrap_or_default();
        check!(got.len() == want.len(), "thread {t}: {} events instead of {}", got.len(), want.len());
        for (g, w) in got.iter().zip(want) {
            check!(g.kind == w.0 && g.label == w.1 && g.args == w.2, "thread {t}: {} instead of {w:?}", show_ev(g));
            match (&g.pay, w.4, w.5) {
                (Pay::Integer(a), Some(b), _) => check!(*a == b, "integer {a} instead of {b}"),
                (Pay::Interval(..), None, true) | (Pay::Instant(_), None, false) => {}
                _ => return viol(format!("payload {:?} instead of {w:?}", g.pay)),
            }
            h.bytes(g.label.as_bytes());
        }
        ctx.count("recorded_events", want.len() as u64);
    }
    check!(by_tid.is_empty(), "events of unknown threads: {:?}", by_tid.keys());
    // order in which the threads got their events in
    for e in &reference {
        h.add(e.tid as u64);
    }
    ctx.distinct.insert(h.0);
    exercise(&pd)?;
    ctx.count("threads", nt);
    Ok(())
}

/// All reading interfaces of a profile.
fn exercise(pd: &ProfilingData) -> R {
    cut("reading", || {
        let n = pd.iter().count();
        let back: Vec<_> = pd.iter().rev().collect();
        assert!(back.len() == n && n == pd.num_events());
        let mut it = pd.iter_full();
        for k in 0..4 {
            if (if k % 2 == 0 { it.next() } else { it.next_back() }).is_none() {
                assert!(k == n);
                break;
            }
        }
        for e in back.iter().take(2) {
            let f = pd.to_full_event(e);
            assert!(f.thread_id == e.thread_id);
        }
    })
}

/// Sinks shared by threads: all that is written arrives, in one piece, where its address says.
fn sinks(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let tags = [PageTag::Events, PageTag::StringData, PageTag::StringIndex];
    let b = SerializationSinkBuilder::new_in_memory();
    let ns = rng.range(1, 3) as usize;
    let sinks: Vec<SerializationSink> = (0..ns).map(|i| b.new_sink(tags[i])).collect();
    let nt = rng.range(1, 3);
    let big = rng.chance(1, 3);
    let mut all: Vec<Vec<(usize, u64, Vec<u8>)>> = vec![];
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..nt)
            .map(|t| {
                let mut r = rng.fork();
                let sinks = &sinks;
                s.spawn(move || {
                    let mut out = vec![];
                    for i in 0..r.range(2, 10) {
                        let k = r.us(sinks.len());
                        let n = if big { *r.pick(&[20usize, 4000, 70_000, 131_072, 200_000, 262_144]) } else { r.range(1, 60) as usize };
                        let mut data = vec![0; n];
                        data.fill((i as u8) ^ 0x5a);
                        data[0] = t as u8;
                        data[n - 1] = r.next() as u8;
                        // other ways to write fill the buffer byte by byte, which takes an interpreter long
                        let a = match if n > 5000 { 0 } else { r.below(4) } {
                            0 => sinks[k].write_bytes_atomic(&data),
                            1 => {
                                // through the standard interface there is no address
                                std::io::Write::write_all(&mut sinks[k].as_std_write(), &data).unwrap();
                                out.push((k, u64::MAX, data));
                                continue;
                            }
                            _ => sinks[k].write_atomic(n, |m| m.copy_from_slice(&data)),
                        };
                        out.push((k, a.0, data));
                    }
                    out
                })
            })
            .collect();
        for h in hs {
            all.push(h.join().expect("writing thread"));
        }
    });
    let order: Vec<usize> = (0..ns).collect();
    let bytes: Vec<Vec<u8>> = sinks.into_iter().map(|s| s.into_bytes()).collect();
    let mut h = Hasher64::new();
    for (i, b) in order.iter().zip(&bytes) {
        let sum: usize = all.iter().flatten().filter(|w| w.0 == *i).map(|w| w.2.len()).sum();
        check!(b.len() == sum, "sink {i}: {} bytes instead of {sum}", b.len());
        h.bytes(&b[..b.len().min(2000)]);
    }
    for (k, a, d) in all.iter().flatten() {
        if *a != u64::MAX {
            check!(bytes[*k].get(*a as usize..*a as usize + d.len()) == Some(&d[..]), "sink {k}: the data written to {a} is elsewhere");
        }
        ctx.count("sink_writes", 1);
    }
    ctx.distinct.insert(h.0);
    Ok(())
}

/// String tables in memory: every way to write strings, every way to read them.
fn table(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let sb = SerializationSinkBuilder::new_in_memory();
    let data = Arc::new(sb.new_sink(PageTag::StringData));
    let index = Arc::new(sb.new_sink(PageTag::StringIndex));
    let b = StringTableBuilder::new(data.clone(), index.clone()).map_err(|e| Violation { msg: e.to_string() })?;
    let mut want: Vec<(StringId, String)> = vec![];
    let mut virt = rng.below(1000);
    let mut h = Hasher64::new();
    for _ in 0..rng.range(2, 12) {
        let s = small(rng);
        h.bytes(s.as_bytes());
        match rng.below(4) {
            0 => want.push((b.alloc(&s[..]), s)),
            1 if !want.is_empty() => {
                let (r, t) = rng.pick(&want).clone();
                if t.len() > 300 {
                    continue;
                }
                let c = [StringComponent::Value(&s[..]), StringComponent::Ref(r), StringComponent::Ref(r)];
                let id = match rng.below(3) {
                    0 => b.alloc(&c),
                    1 => b.alloc(&c[..]),
                    _ => b.alloc(&[StringComponent::Value(&s[..]), StringComponent::Ref(r), StringComponent::Ref(r), StringComponent::Value("")]),
                };
                want.push((id, format!("{s}{t}{t}")));
            }
            _ => {
                let id = b.alloc(&s[..]);
                let k = rng.logsize(40);
                let ids: Vec<StringId> = (0..k).map(|i| StringId::new_virtual(virt + i)).collect();
                virt += k + 1;
                b.bulk_map_virtual_to_single_concrete_string(ids.iter().copied(), id);
                for i in ids {
                    want.push((i, s.clone()));
                }
                let v = StringId::new_virtual(virt);
                virt += 1;
                b.map_virtual_to_concrete_string(v, id);
                want.push((v, s.clone()));
                want.push((id, s));
            }
        }
    }
    b.alloc_metadata(&enc::metadata_json(&gen_loose(rng, 1, Text::Rich, 5, 0), true)[..]);
    drop(b);
    let take = |s: Arc<SerializationSink>| Arc::try_unwrap(s).ok().unwrap().into_bytes();
    let (data, index) = (take(data), take(index));
    let mut events = b"MMES".to_vec();
    events.extend_from_slice(&9u32.to_le_bytes());
    for (id, _) in &want {
        let mut r = [0u8; 32];
        RawEvent::new_instant(*id, EventId::from_label(*id), 1, 2).serialize(&mut r);
        events.extend_from_slice(&r);
    }
    let d = match decodeme::EventDecoder::from_separate_buffers(data, index, events, None) {
        Ok(d) => d,
        Err(e) => return viol(format!("own string table rejected: {e}")),
    };
    for (i, (id, s)) in want.iter().enumerate() {
        let got = cut("decode_full_event", || d.decode_full_event(i))?;
        check!(got.event_kind == s[..], "{id:?} reads as {} instead of {}", show(&got.event_kind), show(s));
        ctx.count("strings", 1);
    }
    // one decoder may be used by several threads at once
    std::thread::scope(|sc| -> R {
        let hs: Vec<_> = (0..3usize)
            .map(|k| {
                let (d, want) = (&d, &want);
                sc.spawn(move || (0..want.len()).map(|i| (i * 7 + k * 3) % want.len()).all(|i| d.decode_full_event(i).event_kind == want[i].1[..] && d.decode_lightweight_event(i).thread_id == 1 && d.metadata().process_id == d.metadata().process_id))
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok(true) => {}
                Ok(false) => return viol("a decoder shared by threads reads something else"),
                Err(_) => return viol("a decoder shared by threads panics"),
            }
        }
        Ok(())
    })?;
    ctx.count("decoders_shared_by_threads", 1);
    ctx.distinct.insert(h.0);
    Ok(())
}

/// Files of both versions from the independent encoder, read by the library.
fn read(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = rng.range(1, 12) as usize;
    let t = gen_loose(rng, n, Text::Rich, 15, 2);
    let v = if rng.chance(1, 3) { 8 } else { 9 };
    let e = *rng.pick(&[Enc::Simple, Enc::Mixed]);
    let p = *rng.pick(&[Paging::Single, Paging::Random, Paging::Library]);
    let f = enc::file(&t, v, e, p, rng);
    ctx.distinct.insert(hash_bytes(&f));
    let pd = if rng.chance(1, 2) {
        let d = ctx.dir("probe");
        write_file(&d, "r.mm_profdata", &f);
        open_file(&d.join("r"))?
    } else {
        open_bytes(f)?
    };
    let evs = read_evs(&pd, start_of(&t))?;
    same_evs(&evs, &t.evs, &format!("version {v} file"))?;
    check!(pd.metadata().process_id == t.pid && pd.metadata().cmd == t.cmd, "metadata: {:?}", pd.metadata());
    exercise(&pd)?;
    ctx.count("read_events", n as u64);
    ctx.count(&format!("version_{v}_files"), 1);
    // a profile may move to another thread
    let back = std::thread::spawn(move || pd.iter_full().map(|e| e.label.len()).sum::<usize>()).join();
    check!(back.ok() == Some(t.evs.iter().map(|e| e.label.len()).sum()), "read on another thread");
    Ok(())
}

/// Damaged files: whatever the library makes of them, it stays within the rules of the language.
fn damaged(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = rng.range(0, 5) as usize;
    let t = gen_loose(rng, n, Text::Rich, 10, 2);
    let v = if rng.chance(1, 3) { 8 } else { 9 };
    let mut f = enc::file(&t, v, Enc::Mixed, *rng.pick(&[Paging::Single, Paging::Random]), rng);
    // mostly inside the pages, where more of the damage goes unnoticed at first
    let pages: Vec<(usize, usize)> = refdec::pages(&f[8..]).unwrap().iter().filter(|p| p.len > 8).map(|p| (8 + p.off, p.len)).collect();
    for _ in 0..rng.range(1, 4) {
        match rng.below(12) {
            0 => {
                let k = rng.us(f.len() + 1);
                f.truncate(k);
            }
            1 => {
                let k = rng.us(9);
                f.extend((0..k).map(|_| rng.next() as u8));
            }
            2..=10 if !pages.is_empty() => {
                let (off, len) = *rng.pick(&pages);
                let k = (off + rng.us(len)).min(f.len().saturating_sub(1));
                if k < f.len() {
                    f[k] ^= 1 << rng.below(8);
                }
            }
            _ if !f.is_empty() => {
                let k = rng.us(f.len());
                f[k] = if rng.chance(1, 2) { f[k] ^ (1 << rng.below(8)) } else { *rng.pick(&[0, 1, 8, 0x7f, 0x80, 0xfe, 0xff]) };
            }
            _ => {}
        }
    }
    ctx.distinct.insert(hash_bytes(&f));
    let r = traps(|| {
        let pd = match ProfilingData::from_paged_buffer(f, None) {
            Ok(pd) => pd,
            Err(e) => return format!("{e}").is_empty() as u64,
        };
        let mut k = 1u64;
        if v == 8 {
            // nothing is promised of the published reader when strings contain themselves
            return k;
        }
        for e in pd.iter_full().take(50) {
            k = k.wrapping_add(e.label.len() as u64 + e.event_kind.len() as u64 + e.additional_data.len() as u64);
        }
        for e in pd.iter().take(50) {
            k = k.wrapping_add(e.timestamp().is_some() as u64);
        }
        k
    });
    ctx.count(match r { Ok(0) => "damaged_rejected", Ok(_) => "damaged_read", Err(_) => "damaged_panics" }, 1);
    Ok(())
}

/// An iterator that does not yield as many identifiers as it announces.
struct Liar {
    next: u64,
    left: u64,
    announced: usize,
    panics: bool,
}

impl Iterator for Liar {
    type Item = StringId;
    fn next(&mut self) -> Option<StringId> {
        if self.left == 0 {
            assert!(!self.panics, "the iterator gives up");
            return None;
        }
        self.left -= 1;
        self.next += 1;
        Some(StringId::new_virtual(self.next))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.announced, Some(self.announced))
    }
}

impl ExactSizeIterator for Liar {}

/// A string that does not keep to the size it announces.
struct Odd {
    announced: Vec<usize>,
    asked: std::cell::Cell<usize>,
    filled: usize,
    panics: bool,
}

impl SerializableString for Odd {
    fn serialized_size(&self) -> usize {
        let i = self.asked.get();
        self.asked.set(i + 1);
        self.announced[i.min(self.announced.len() - 1)]
    }
    fn serialize(&self, bytes: &mut [u8]) {
        fill(bytes, self.filled, self.panics)
    }
}

/// What a careless callback does: it looks at the buffer and fills a part of it.
fn fill(bytes: &mut [u8], n: usize, panics: bool) {
    let mut sum = 0u8;
    for b in bytes.iter() {
        sum = sum.wrapping_mul(31) ^ *b;
    }
    for (i, b) in bytes.iter_mut().enumerate().take(n) {
        *b = sum ^ i as u8;
    }
    assert!(!panics, "the callback gives up");
}

/// Safe but careless or malicious callers: whatever the library makes of them,
/// it stays within the rules of the language.
fn hostile(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let b = SerializationSinkBuilder::new_in_memory();
    let sinks: Vec<Arc<SerializationSink>> =
        [PageTag::Events, PageTag::StringData, PageTag::StringIndex].into_iter().map(|t| Arc::new(b.new_sink(t))).collect();
    let table = StringTableBuilder::new(sinks[1].clone(), sinks[2].clone()).unwrap();
    let target = table.alloc("target");
    let mut h = Hasher64::new();
    for _ in 0..rng.range(2, 10) {
        let n = rng.logsize(60) as usize;
        let off = match rng.below(4) {
            0 => n,
            1 => n + 1 + rng.us(40),
            2 => n.saturating_sub(1 + rng.us(20)),
            _ => rng.us(80),
        };
        let panics = rng.chance(1, 4);
        let op = rng.below(6);
        for x in [op, n as u64, off as u64, panics as u64] {
            h.bytes(&x.to_le_bytes());
        }
        let s = rng.pick(&sinks).clone();
        let other = rng.pick(&sinks).clone();
        let again = rng.us(70);
        let next = rng.below(1000);
        let r = traps(|| match op {
            0 | 1 => table.bulk_map_virtual_to_single_concrete_string(Liar { next, left: n as u64, announced: off, panics }, target),
            2 => {
                let o = Odd { announced: vec![n, off, again], asked: Default::default(), filled: again, panics };
                table.alloc(&o);
            }
            3 => {
                s.write_atomic(n, |b| fill(b, off, panics));
            }
            // records of the wrong size
            4 => {
                let mut exact = vec![0u8; n].into_boxed_slice();
                if panics {
                    let e = RawEvent::deserialize(&exact);
                    s.write_atomic(32, |b| e.serialize(b));
                } else {
                    let e = RawEvent::new_integer(target, EventId::from_label(target), 7, next);
                    e.serialize(&mut exact);
                    s.write_bytes_atomic(&exact);
                }
            }
            _ => {
                // writing to one stream from within a write to another
                s.write_atomic(n, |b| {
                    fill(b, off, false);
                    if !Arc::ptr_eq(&s, &other) {
                        other.write_atomic(again, |b| fill(b, off / 2, panics));
                    }
                });
            }
        });
        ctx.count(if r.is_ok() { "hostile_calls_returned" } else { "hostile_calls_panicked" }, 1);
        if rng.chance(1, 6) {
            std::io::Write::flush(&mut s.as_std_write()).unwrap();
        }
    }
    ctx.distinct.insert(h.0);
    drop(table);
    // every byte that reached the storage is looked at
    for s in sinks {
        if let Ok(s) = Arc::try_unwrap(s) {
            ctx.count("hostile_bytes", s.into_bytes().iter().map(|b| (*b >= 128) as u64 + 1).sum::<u64>().min(1 << 30));
        }
    }
    Ok(())
}

/// Event records: every constructor, at every alignment.
fn raw(ctx: &mut Ctx, rng: &mut Rng) -> R {
    for _ in 0..8 {
        let k = StringId::new(rng.next());
        let id = EventId::from_u64(rng.next());
        let tid = val32(rng);
        let (e, pay) = match rng.below(3) {
            0 => {
                let v = val48(rng, MAX_SINGLE);
                (RawEvent::new_integer(k, id, tid, v), Pay::Integer(v))
            }
            1 => {
                let v = val48(rng, MAX_SINGLE);
                (RawEvent::new_instant(k, id, tid, v), Pay::Instant(v))
            }
            _ => {
                let a = val48(rng, MAX_INTERVAL);
                let b = rng.range(a, MAX_INTERVAL);
                (RawEvent::new_interval(k, id, tid, a, b), Pay::Interval(a, b))
            }
        };
        let off = rng.us(9);
        let mut buf = vec![0xAAu8; 32 + 9];
        e.serialize(&mut buf[off..off + 32]);
        check!(buf[..off].iter().chain(&buf[off + 32..]).all(|b| *b == 0xAA), "the record spills over");
        let d = RawEvent::deserialize(&buf[off..off + 32]);
        check!(d == e, "{d:?} instead of {e:?}");
        let r = &buf[off..off + 32];
        let le = |a: usize, n: usize| r[a..a + n].iter().rev().fold(0u64, |x, b| x << 8 | *b as u64);
        check!(le(0, 8) == k.as_u64() && le(8, 8) == id.as_u64() && le(16, 4) == tid as u64, "layout of {r:02x?}");
        let (lo, hi, up) = (le(20, 4), le(24, 4), le(28, 4));
        let (p1, p2) = (lo | (up & 0xffff0000) << 16, hi | (up & 0xffff) << 32);
        let (w1, w2) = match pay {
            Pay::Integer(v) => (v, (1 << 48) - 2),
            Pay::Instant(v) => (v, (1 << 48) - 1),
            Pay::Interval(a, b) => (a, b),
        };
        check!(p1 == w1 && p2 == w2, "payload {p1:#x} {p2:#x} instead of {w1:#x} {w2:#x}");
        check!(d.value() == w1 || matches!(pay, Pay::Interval(..)), "value {}", d.value());
        ctx.count("raw_records", 1);
        ctx.distinct.insert(hash_bytes(r));
    }
    Ok(())
}

/// Profiles built in memory and analyzed.
fn builder(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let mut b = analyzeme::ProfilingDataBuilder::new();
    let n = rng.range(1, 4);
    let unit = 100 * if rng.chance(1, 2) { 1 } else { rng.range(1, 1 << 38) };
    let far = if rng.chance(1, 2) { 100 } else { 1 << 46 };
    let mut at = rng.below(far);
    let mut count = 0;
    let begin = at;
    let mut last = at;
    for i in 0..n {
        let end = at + unit;
        last = end;
        let deep = rng.below(3);
        b.interval("Query", &format!("q{i}"), 0, at, end, |b| {
            if deep > 0 {
                b.interval("Query", "in", 0, at + 1, at + unit / 2, |b| {
                    b.instant("QueryCacheHit", "in", 0, at + 2);
                });
            }
            b.integer("ArtifactSize", "a", 0, unit);
        });
        count += 2 + if deep > 0 { 2 } else { 0 };
        at = end + rng.below(5);
    }
    let pd = b.into_profiling_data();
    check!(pd.num_events() == count, "{} events instead of {count}", pd.num_events());
    exercise(&pd)?;
    let s = cut("collapse_stacks", || analyzeme::collapse_stacks(&pd))?;
    let total: u128 = s.values().map(|&v| v as u128).sum();
    let span = (last - begin) as u128;
    check!(total == span, "the stacks last {total} ns instead of {span}");
    let r = cut("perform_analysis", || pd.perform_analysis())?;
    let total: u128 = r.query_data.iter().map(|q| q.self_time.as_nanos()).sum();
    check!(total == n as u128 * unit as u128, "the queries last {total} ns instead of {n} x {unit}");
    let size: u64 = r.artifact_sizes.iter().map(|a| a.value).sum();
    check!(size == n * unit, "artifacts of {size} bytes instead of {n} x {unit}");
    ctx.count("analyses", 1);
    Ok(())
}

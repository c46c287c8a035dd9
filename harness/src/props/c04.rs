//! C04: recorded times are truthful.
use super::*;
use crate::shim;
use measureme::counters::Counter;
use measureme::{EventId, Profiler};
use std::sync::{Arc, Barrier};
use std::time::Instant;

pub fn props() -> Vec<Prop> {
    vec![prop("C04", 60000, run, "recordings whose (operation, clock distance) sequences differ and contain at least ten bracketed times")]
}

#[derive(Clone, Copy)]
struct Br {
    lo: Instant,
    hi: Instant,
}

struct Rec {
    /// start and end brackets (the same for instants)
    s: Br,
    e: Br,
    interval: bool,
}

fn br<T>(f: impl FnOnce() -> T) -> (T, Br) {
    let lo = Instant::now();
    let x = f();
    let hi = Instant::now();
    (x, Br { lo, hi })
}

fn ns(d: Duration) -> u64 {
    d.as_nanos() as u64
}

fn rec(p: &Profiler, rng: &mut Rng, tid: u32, k: measureme::StringId, n: u64, out: &mut Vec<Rec>, jump: &dyn Fn(&mut Rng)) {
    let id = EventId::from_label(k);
    for _ in 0..n {
        jump(rng);
        match rng.below(5) {
            0 | 1 => {
                let ((), b) = br(|| p.record_instant_event(k, id, tid));
                out.push(Rec { s: b, e: b, interval: false });
            }
            2 => {
                let (g, s) = br(|| p.start_recording_interval_event(k, id, tid));
                jump(rng);
                let ((), e) = br(|| drop(g));
                out.push(Rec { s, e, interval: true });
            }
            3 => {
                let (g, s) = br(|| p.start_recording_interval_event_detached(k, id, tid));
                jump(rng);
                let ((), e) = br(|| p.finish_recording_interval_event(g));
                out.push(Rec { s, e, interval: true });
            }
            _ => {
                let (g, s) = br(|| p.start_recording_interval_event(k, id, tid));
                // something inside
                let ((), b) = br(|| p.record_instant_event(k, id, tid));
                out.push(Rec { s: b, e: b, interval: false });
                jump(rng);
                let ((), e) = br(|| g.finish_with_override_event_id(id));
                out.push(Rec { s, e, interval: true });
            }
        }
    }
}

fn run(ctx: &mut Ctx, _idx: u64, rng: &mut Rng) -> R {
    let dir = ctx.dir("c04");
    let stem = dir.join("p");
    let ctl = shim::ctl();
    let jumps = ctl.is_some() && rng.chance(2, 3);
    let nthreads = if jumps { 1 } else { rng.range(1, 6) as usize };
    let mut h = Hasher64::new();
    if let Some(c) = ctl {
        c.reset();
        if rng.chance(1, 4) {
            // times that are the same although time goes by
            shim::set(&c.mono_res, *rng.pick(&[100, 1_000, 1_000_000]));
            ctx.count("coarse_clocks", 1);
        }
        if jumps {
            // any wall-clock date between 1970 and 2500, any monotonic clock
            let now = SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_nanos() as i64;
            let want = match rng.below(4) {
                0 => now,
                1 => rng.below(1_000_000_000_000) as i64,
                2 => rng.below(9_000_000_000_000_000_000) as i64,
                _ => (4_294_967_296 + rng.below(1000)) as i64 * 1_000_000_000,
            };
            shim::set(&c.real_off, want - now);
            shim::set(&c.mono_off, rng.below(1 << 50) as i64);
            h.add(want as u64);
        }
    }
    let named = rng.chance(2, 3);
    let s0 = SystemTime::now();
    let c0 = Instant::now();
    let (counter, c1) = if named {
        let c = Counter::by_name("wall-time");
        (Some(c), Instant::now())
    } else {
        (None, c0)
    };
    let p = match counter {
        Some(Ok(c)) => cut("Profiler::with_counter", || Profiler::with_counter(&stem, c))?,
        Some(Err(e)) => return viol(format!("the wall-clock counter is refused: {e}")),
        None => cut("Profiler::new", || Profiler::new(&stem))?,
    };
    let c1 = if named { c1 } else { Instant::now() };
    let s1 = SystemTime::now();
    let p = match p {
        Ok(p) => p,
        Err(e) => return viol(format!("profiler not created: {e}")),
    };
    let k = p.alloc_string("k");
    // The clock value may advance in total by at most what 48 bits hold.
    let room = std::cell::Cell::new((1u64 << 48) - (600 << 30));
    let njumps = std::cell::Cell::new(0u64);
    let hh = std::cell::Cell::new(h.0);
    let jump = |rng: &mut Rng| {
        if !jumps || !rng.chance(1, 3) {
            return;
        }
        if let Some(c) = ctl {
            let d = rng.logsize(room.get());
            let d = if rng.chance(1, 4) { (rng.range(1, 20) << 32).min(room.get()) } else { d };
            room.set(room.get() - d);
            shim::set(&c.mono_off, shim::get(&c.mono_off) + d as i64);
            if rng.chance(1, 2) {
                // the wall clock may be set to anything meanwhile
                shim::set(&c.real_off, shim::get(&c.real_off) + rng.below(1 << 45) as i64 - (1 << 44));
            }
            njumps.set(njumps.get() + 1);
            hh.set(mix(hh.get() ^ d));
        }
    };
    let mut recs: Vec<Vec<Rec>> = Vec::new();
    let n = rng.range(10, 60);
    if nthreads == 1 {
        let mut v = Vec::new();
        cut("recording", || rec(&p, rng, 0, k, n, &mut v, &jump))?;
        recs.push(v);
    } else {
        let b = Arc::new(Barrier::new(nthreads));
        let rngs: Vec<Rng> = (0..nthreads).map(|_| rng.fork()).collect();
        let mut bad = None;
        std::thread::scope(|s| {
            let hs: Vec<_> = rngs
                .into_iter()
                .enumerate()
                .map(|(t, mut r)| {
                    let (p, b) = (&p, b.clone());
                    s.spawn(move || {
                        let mut v = Vec::new();
                        b.wait();
                        let x = cut("recording", || rec(p, &mut r, t as u32, k, n, &mut v, &|r| {
                            if r.chance(1, 10) {
                                std::thread::yield_now();
                            }
                        }));
                        (x, v)
                    })
                })
                .collect();
            for h in hs {
                let (x, v) = h.join().unwrap();
                if let Err(e) = x {
                    bad = Some(e);
                }
                recs.push(v);
            }
        });
        if let Some(e) = bad {
            return Err(e);
        }
    }
    cut("dropping the profiler", || drop(p))?;
    if let Some(c) = ctl {
        c.reset();
    }
    let pd = open_file(&stem)?;
    let start = pd.metadata().start_time;
    check!(s0 <= start && start <= s1, "the stored start time {start:?} is not between {s0:?} and {s1:?}, when the profiler was created");
    let got = read_evs(&pd, start)?;
    let mut width = u64::MAX;
    let mut times = 0u64;
    for (t, rs) in recs.iter().enumerate() {
        let mine: Vec<&Ev> = got.iter().filter(|e| e.tid == t as u32).collect();
        check!(mine.len() == rs.len(), "thread {t}: {} events read, {} recorded", mine.len(), rs.len());
        // all bracketed times of this thread as (stored, bracket)
        let mut pts: Vec<(u64, Br)> = Vec::new();
        let mut last = 0;
        for (e, r) in mine.iter().zip(rs) {
            let (s, f) = match e.pay {
                Pay::Interval(s, f) if r.interval => (s, f),
                Pay::Instant(s) if !r.interval => (s, s),
                _ => return viol(format!("{} is of the wrong kind", show_ev(e))),
            };
            check!(s <= f, "interval {s}..{f} ends before it starts");
            check!(f >= last, "an event recorded later carries the earlier time {f} (after {last})");
            last = f;
            pts.push((s, r.s));
            if r.interval {
                pts.push((f, r.e));
            }
        }
        for (i, (v, b)) in pts.iter().enumerate() {
            let lo = ns(b.lo.saturating_duration_since(c1));
            let hi = ns(b.hi.duration_since(c0));
            check!(*v >= lo && *v <= hi, "time {v} ns stored for a call made {lo}..{hi} ns after the profiler's creation");
            width = width.min(hi - lo);
            // distance to the thread's first and previous time
            for j in [0, i.saturating_sub(1)] {
                let (w, c) = pts[j];
                if b.lo >= c.hi {
                    let (lo, hi) = (ns(b.lo - c.hi), ns(b.hi - c.lo));
                    let d = v.wrapping_sub(w);
                    check!(d >= lo && d <= hi, "times {w} and {v} are {} ns apart; the calls were {lo}..{hi} ns apart", d as i64);
                }
            }
            times += 1;
        }
    }
    ctx.count("bracketed_times", times);
    ctx.count("clock_jumps", njumps.get());
    ctx.maxc("stored_time_ns", got.iter().filter_map(|e| e.pay.end()).max().unwrap_or(0));
    let mut key = Hasher64::new();
    key.add(hh.get());
    for e in &got {
        key.add(e.pay.end().unwrap_or(0));
    }
    ctx.eval(if times >= 10 { Some(key.0) } else { None });
    ctx.sample(|| format!("{nthreads} threads, {times} times checked, {} clock jumps, tightest bracket {width} ns", njumps.get()));
    Ok(())
}

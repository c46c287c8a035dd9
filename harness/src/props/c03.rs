//! C03: every recorded event is read back exactly once, unaltered.
use super::*;
use crate::shim;
use measureme::{DetachedTiming, EventId, EventIdBuilder, Profiler, StringId};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex};

pub fn props() -> Vec<Prop> {
    vec![prop("C03", 1800, run, "profiles whose recorded event sequences differ, with at least two recording interfaces or threads used")]
}

#[derive(Clone)]
struct Want {
    kind: usize,
    label: usize,
    args: Vec<usize>,
    tid: u32,
    /// 0 interval, 1 instant, 2 integer
    what: u8,
    value: u64,
    seq: u64,
    before: u64,
    after: u64,
}

struct Pending {
    t: DetachedTiming,
    w: Want,
}

struct Pools {
    kinds: Vec<(String, StringId)>,
    labels: Vec<(String, StringId)>,
    args: Vec<(String, StringId)>,
}

struct Th<'a> {
    p: &'a Profiler,
    pools: &'a Pools,
    tick: &'a AtomicU64,
    boxx: &'a Mutex<Vec<Pending>>,
    rng: Rng,
    out: Vec<Want>,
    left: u64,
    seq: u64,
    base: u32,
    unique: bool,
    apis: u64,
}

impl<'a> Th<'a> {
    fn new_event(&mut self, what: u8) -> (StringId, EventId, Want) {
        let kind = self.rng.us(self.pools.kinds.len());
        let label = self.rng.us(self.pools.labels.len());
        self.seq += 1;
        let tid = if self.unique { self.base | self.seq as u32 } else { self.base >> 24 };
        let b = EventIdBuilder::new(self.p);
        let l = self.pools.labels[label].1;
        let (args, id) = match self.rng.below(5) {
            0 | 1 => (vec![], if self.rng.chance(1, 2) { b.from_label(l) } else { EventId::from_label(l) }),
            2 => {
                let a = self.rng.us(self.pools.args.len());
                (vec![a], b.from_label_and_arg(l, self.pools.args[a].1))
            }
            _ => {
                let v: Vec<usize> = (0..self.rng.below(6)).map(|_| self.rng.us(self.pools.args.len())).collect();
                let ids: Vec<StringId> = v.iter().map(|&a| self.pools.args[a].1).collect();
                (v, b.from_label_and_args(l, &ids))
            }
        };
        let w = Want { kind, label, args, tid, what, value: 0, seq: self.seq, before: 0, after: 0 };
        (self.pools.kinds[kind].1, id, w)
    }
    fn done(&mut self, mut w: Want, before: u64) {
        w.before = before;
        w.after = self.tick.fetch_add(1, SeqCst);
        self.out.push(w);
        self.left = self.left.saturating_sub(1);
    }
    fn now(&self) -> u64 {
        self.tick.fetch_add(1, SeqCst)
    }
    fn step(&mut self, depth: u32) {
        if self.left == 0 {
            return;
        }
        let choice = self.rng.below(14);
        self.apis |= 1 << choice;
        match choice {
            0..=3 => {
                let (k, e, w) = self.new_event(1);
                let b = self.now();
                self.p.record_instant_event(k, e, w.tid);
                self.done(w, b);
            }
            4..=5 => {
                let (k, e, mut w) = self.new_event(2);
                w.value = val48(&mut self.rng, MAX_SINGLE);
                let b = self.now();
                self.p.record_integer_event(k, e, w.tid, w.value);
                self.done(w, b);
            }
            6..=8 => {
                // guard, possibly with others inside
                let (k, e, w) = self.new_event(0);
                let g = self.p.start_recording_interval_event(k, e, w.tid);
                if depth < 12 {
                    for _ in 0..self.rng.below(4) {
                        self.step(depth + 1);
                    }
                }
                let b = self.now();
                drop(g);
                self.done(w, b);
            }
            9 => {
                let (k, e, mut w) = self.new_event(0);
                let g = self.p.start_recording_interval_event(k, e, w.tid);
                if depth < 12 && self.rng.chance(1, 2) {
                    self.step(depth + 1);
                }
                let (_, e2, w2) = self.new_event(0);
                w.label = w2.label;
                w.args = w2.args;
                let b = self.now();
                g.finish_with_override_event_id(e2);
                self.done(w, b);
            }
            10 => {
                let (k, e, w) = self.new_event(0);
                let t = self.p.start_recording_interval_event_detached(k, e, w.tid);
                if self.rng.chance(1, 2) {
                    self.boxx.lock().unwrap().push(Pending { t, w });
                } else {
                    if depth < 12 {
                        self.step(depth + 1);
                    }
                    let b = self.now();
                    self.p.finish_recording_interval_event(t);
                    self.done(w, b);
                }
            }
            11 => {
                let x = {
                    let mut v = self.boxx.lock().unwrap();
                    if v.is_empty() {
                        None
                    } else {
                        let i = self.rng.us(v.len());
                        Some(v.swap_remove(i))
                    }
                };
                if let Some(Pending { t, w }) = x {
                    let b = self.now();
                    self.p.finish_recording_interval_event(t);
                    self.done(w, b);
                }
            }
            12 => {
                // never finished: must not appear
                let (k, e, w) = self.new_event(0);
                if self.rng.chance(1, 2) {
                    drop(self.p.start_recording_interval_event_detached(k, e, w.tid));
                } else {
                    std::mem::forget(self.p.start_recording_interval_event(k, e, w.tid));
                }
                self.left = self.left.saturating_sub(1);
            }
            _ => {
                // guards dropped while a panic unwinds
                let n = self.rng.range(1, 3);
                let evs: Vec<_> = (0..n).map(|_| self.new_event(0)).collect();
                let p = self.p;
                let b = self.now();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let mut gs = Vec::new();
                    for (k, e, w) in &evs {
                        gs.push(p.start_recording_interval_event(*k, *e, w.tid));
                    }
                    // dropped last to first
                    struct Rev<'x>(Vec<measureme::TimingGuard<'x>>);
                    impl<'x> Drop for Rev<'x> {
                        fn drop(&mut self) {
                            while let Some(g) = self.0.pop() {
                                drop(g);
                            }
                        }
                    }
                    let _r = Rev(gs);
                    std::panic::panic_any(());
                }));
                assert!(r.is_err());
                for (_, _, w) in evs.into_iter().rev() {
                    self.done(w, b);
                }
            }
        }
    }
}

fn pool(p: &Profiler, rng: &mut Rng, n: u64, max: u64, virt: &mut u64) -> Vec<(String, StringId)> {
    (0..n)
        .map(|i| {
            // distinct texts
            let s = format!("{}{i}", text(rng, Text::Rich, max));
            let id = if rng.chance(1, 4) {
                let v = StringId::new_virtual(*virt);
                *virt += 1;
                let c = p.alloc_string(&s[..]);
                p.map_virtual_to_concrete_string(v, c);
                v
            } else {
                p.alloc_string(&s[..])
            };
            (s, id)
        })
        .collect()
}

fn run(ctx: &mut Ctx, idx: u64, rng: &mut Rng) -> R {
    let dir = ctx.dir("c03");
    let stem = dir.join("p");
    let ctl = shim::ctl();
    let nthreads = if rng.chance(1, 4) { 1 } else { rng.range(2, 8) as usize };
    let big = idx % 8 == 5;
    let total = if idx % 240 == 5 { rng.range(70_000, 140_000) } else if big { rng.range(8000, 60_000) } else { rng.range(1, 1500) };
    let unique = rng.chance(2, 3);
    if let Some(c) = ctl {
        c.reset();
        shim::set(&c.seed, rng.next() as i64);
        shim::set(&c.delay_us, if rng.chance(1, 2) { 200 } else { 0 });
        if rng.chance(1, 4) {
            shim::set(&c.short_pm, 200);
            shim::set(&c.eintr_pm, 100);
        }
        shim::set(&c.armed, 1);
        if rng.chance(1, 3) {
            // a clock so coarse that many events have the same time
            shim::set(&c.mono_res, *rng.pick(&[1_000, 1_000_000, 10_000_000, 3_600_000_000_000]));
            ctx.count("coarse_clocks", 1);
        }
    }
    let p = match cut("Profiler::new", || Profiler::new(&stem))? {
        Ok(p) => p,
        Err(e) => return viol(format!("Profiler::new failed: {e}")),
    };
    let mut virt = rng.below(1000);
    let (nk, nl, na) = (rng.range(1, 6), rng.range(1, 20), rng.range(1, 20));
    let pools = cut("allocating strings", || Pools {
        kinds: pool(&p, rng, nk, 10, &mut virt),
        labels: pool(&p, rng, nl, 60, &mut virt),
        args: pool(&p, rng, na, 60, &mut virt),
    })?;
    let tick = AtomicU64::new(1);
    let boxx = Mutex::new(Vec::new());
    let barrier = Arc::new(Barrier::new(nthreads));
    let rngs: Vec<Rng> = (0..nthreads).map(|_| rng.fork()).collect();
    let mut wants: Vec<Vec<Want>> = Vec::new();
    let mut apis = 0;
    let mut fail = None;
    std::thread::scope(|s| {
        let hs: Vec<_> = rngs
            .into_iter()
            .enumerate()
            .map(|(t, r)| {
                let (p, pools, tick, boxx, barrier) = (&p, &pools, &tick, &boxx, barrier.clone());
                s.spawn(move || {
                    let mut th = Th {
                        p,
                        pools,
                        tick,
                        boxx,
                        rng: r,
                        out: Vec::new(),
                        left: total / nthreads as u64 + 1,
                        seq: 0,
                        base: (t as u32 + 1) << 24,
                        unique,
                        apis: 0,
                    };
                    barrier.wait();
                    let r = cut("recording", || {
                        while th.left > 0 {
                            th.step(0);
                        }
                    });
                    (r, th.out, th.apis)
                })
            })
            .collect();
        for h in hs {
            let (r, o, a) = h.join().expect("harness thread");
            if let Err(v) = r {
                fail = Some(v);
            }
            wants.push(o);
            apis |= a;
        }
    });
    if let Some(v) = fail {
        return Err(v);
    }
    cut("dropping the profiler", || drop(p))?;
    if let Some(c) = ctl {
        ctx.count("injected_delays", shim::get(&c.n_delay) as u64);
        c.reset();
    }
    let pd = open_file(&stem)?;
    let start = pd.metadata().start_time;
    let got = read_evs(&pd, start)?;
    let nwant: usize = wants.iter().map(|w| w.len()).sum();
    check!(got.len() == nwant, "{} events were recorded, {} are read back", nwant, got.len());
    // the expected event, apart from times
    let full = |w: &Want| -> (String, String, Vec<String>, u32, u8, u64) {
        (
            pools.kinds[w.kind].0.clone(),
            pools.labels[w.label].0.clone(),
            w.args.iter().map(|&a| pools.args[a].0.clone()).collect(),
            w.tid,
            w.what,
            w.value,
        )
    };
    let gfull = |e: &Ev| -> R<(String, String, Vec<String>, u32, u8, u64)> {
        let (what, v) = match e.pay {
            Pay::Interval(s, t) => {
                check!(s <= t, "interval read back ends before it starts");
                (0, 0)
            }
            Pay::Instant(_) => (1, 0),
            Pay::Integer(v) => (2, v),
        };
        Ok((e.kind.clone(), e.label.clone(), e.args.clone(), e.tid, what, v))
    };
    let mut h = Hasher64::new();
    if unique {
        let mut by: std::collections::HashMap<u32, (usize, &Want)> = Default::default();
        for (t, ws) in wants.iter().enumerate() {
            for w in ws {
                by.insert(w.tid, (t, w));
            }
        }
        let mut items = Vec::new();
        let mut pos_of: std::collections::HashMap<u32, usize> = Default::default();
        for (i, e) in got.iter().enumerate() {
            let (_, w) = match by.remove(&e.tid) {
                Some(x) => x,
                None => return viol(format!("event {i} {} was never recorded (or is there twice)", show_ev(e))),
            };
            let (g, x) = (gfull(e)?, full(w));
            check!(g == x, "event {i} is read as {g:?} but was recorded as {x:?}");
            items.push((i as u64 * 2, i as u64 * 2 + 1, w.before, w.after));
            pos_of.insert(e.tid, i);
            h.add(e.tid as u64 >> 24);
        }
        check!(by.is_empty(), "{} recorded events are missing", by.len());
        for ws in &wants {
            for w in ws.windows(2) {
                let (a, b) = (pos_of[&w[0].tid], pos_of[&w[1].tid]);
                check!(a < b, "the thread recorded event seq {} before seq {}, but they are read at positions {a} and {b}", w[0].seq, w[1].seq);
            }
        }
        super::c02::realtime(&items, "events")?;
    } else {
        // Per thread id the order is known unless another thread finished the interval; compare as multisets
        // and, for a single recording thread, in order.
        let mut a: Vec<_> = Vec::new();
        for e in &got {
            a.push(gfull(e)?);
        }
        let mut b: Vec<_> = wants.iter().flatten().map(|w| full(w)).collect();
        if nthreads == 1 {
            for (i, (g, x)) in a.iter().zip(&b).enumerate() {
                check!(g == x, "event {i} is read as {g:?} but was recorded as {x:?}");
            }
        }
        for e in &got {
            h.add(e.tid as u64);
        }
        a.sort();
        b.sort();
        for (g, x) in a.iter().zip(&b) {
            check!(g == x, "the events read are not the ones recorded: {g:?} instead of {x:?}");
        }
    }
    for ws in &wants {
        for w in ws {
            h.add(w.what as u64 * 1000 + w.kind as u64 * 100 + w.label as u64);
        }
    }
    ctx.count("events", nwant as u64);
    ctx.count("finished_by_another_thread_or_pending", boxx.lock().unwrap().len() as u64);
    ctx.maxc("events_in_one_profile", nwant as u64);
    ctx.eval(if apis.count_ones() > 1 || nthreads > 1 { Some(h.0) } else { None });
    ctx.sample(|| format!("{nthreads} threads recorded {nwant} events through {} kinds of calls; all found once, in order", apis.count_ones()));
    Ok(())
}

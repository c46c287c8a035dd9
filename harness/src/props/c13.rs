//! C13: iterating over a profile is consistent from both ends.
use super::*;
use crate::enc::{self, Enc, Paging};
use analyzeme::{Event, LightweightEvent, ProfilingDataBuilder};
use std::collections::VecDeque;

pub fn props() -> Vec<Prop> {
    vec![prop("C13", 160000, run, "(profile, sequence of iterator operations) pairs that differ and take from both ends")]
}

/// Builds `evs` (in order) with the in-memory builder; nested intervals through the callback.
pub fn build(evs: &[Ev]) -> ProfilingData {
    let mut b = ProfilingDataBuilder::new();
    fn id(e: &Ev) -> String {
        let mut s = e.label.clone();
        for a in &e.args {
            s.push('\x1E');
            s.push_str(a);
        }
        s
    }
    // an interval followed (in recorded order) by an enclosing one is written inside its callback
    fn put(b: &mut ProfilingDataBuilder, evs: &[Ev]) {
        let mut i = 0;
        while i < evs.len() {
            // nest the maximal run of events that ends with an interval of the same thread
            if let Pay::Interval(..) = evs[i].pay {
            }
            let j = evs[i..].iter().position(|e| matches!(e.pay, Pay::Interval(..))).map(|k| i + k);
            match j {
                Some(j) => {
                    let e = &evs[j];
                    let (s, t) = match e.pay {
                        Pay::Interval(s, t) => (s, t),
                        _ => unreachable!(),
                    };
                    b.interval(&e.kind, &id(e), e.tid, s, t, |b| points(b, &evs[i..j]));
                    i = j + 1;
                }
                None => {
                    points(b, &evs[i..]);
                    i = evs.len();
                }
            }
        }
    }
    fn points(b: &mut ProfilingDataBuilder, evs: &[Ev]) {
        for e in evs {
            match e.pay {
                Pay::Instant(t) => b.instant(&e.kind, &id(e), e.tid, t),
                Pay::Integer(v) => b.integer(&e.kind, &id(e), e.tid, v),
                Pay::Interval(..) => unreachable!(),
            };
        }
    }
    put(&mut b, evs);
    b.into_profiling_data()
}

fn drive<T, I>(rng: &mut Rng, mut it: I, model: &[Ev], h: &mut Hasher64, steps: &mut u64, both: &mut u8, same: &dyn Fn(&T, usize) -> R) -> R
where
    I: Iterator<Item = T> + DoubleEndedIterator + ExactSizeIterator,
{
    let mut left: VecDeque<usize> = (0..model.len()).collect();
    let n = rng.range(1, model.len() as u64 + 8);
    let bias = rng.below(3);
    let expect = |got: Option<T>, want: Option<usize>, what: &str| -> R {
        match (got, want) {
            (None, None) => Ok(()),
            (Some(g), Some(i)) => same(&g, i).map_err(|v| Violation { msg: format!("{what}: {}", v.msg) }),
            (Some(_), None) => viol(format!("{what} yields an event although none is left")),
            (None, Some(i)) => viol(format!("{what} yields nothing although event {i} is left")),
        }
    };
    for _ in 0..n {
        *steps += 1;
        check!(it.len() == left.len() && it.size_hint() == (left.len(), Some(left.len())), "{} events are left, the iterator says {} / {:?}", left.len(), it.len(), it.size_hint());
        let op = rng.below(if bias == 0 { 4 } else { 10 });
        h.add(op + 1);
        match op {
            0 | 1 => {
                *both |= 1;
                expect(it.next(), left.pop_front(), "next")?
            }
            2 | 3 => {
                *both |= 2;
                expect(it.next_back(), left.pop_back(), "next_back")?
            }
            4 | 5 => {
                let k = rng.logsize(6) as usize;
                *both |= 1;
                let w = left.get(k).copied();
                for _ in 0..=k {
                    left.pop_front();
                }
                h.add(k as u64);
                expect(it.nth(k), w, &format!("nth({k})"))?
            }
            6 => {
                let k = rng.logsize(6) as usize;
                *both |= 2;
                let w = left.len().checked_sub(k + 1).map(|i| left[i]);
                for _ in 0..=k {
                    left.pop_back();
                }
                h.add(k as u64);
                expect(it.nth_back(k), w, &format!("nth_back({k})"))?
            }
            7 if rng.chance(1, 10) => {
                // more than there is
                let k = left.len() + rng.us(5);
                left.clear();
                let r = if rng.chance(1, 2) { it.nth(k) } else { it.nth_back(k) };
                expect(r, None, "nth beyond the end")?
            }
            8 if rng.chance(1, 10) => {
                let k = rng.us(left.len() + 2).min(left.len());
                let g: Vec<T> = it.by_ref().take(k).collect();
                check!(g.len() == k, "take({k}) yields {}", g.len());
                for x in &g {
                    same(x, left.pop_front().unwrap())?;
                }
            }
            _ => {}
        }
    }
    match rng.below(8) {
        5 => {
            let n = it.fold(Ok(0), |at: R<usize>, x| {
                let at = at?;
                let want = left.get(at).copied();
                expect(Some(x), want, "fold")?;
                Ok(at + 1)
            })?;
            check!(n == left.len(), "fold() passes {n} of {}", left.len());
        }
        6 => {
            let n = it.rfold(Ok(0), |at: R<usize>, x| {
                let at = at?;
                let want = left.len().checked_sub(at + 1).map(|i| left[i]);
                expect(Some(x), want, "rfold")?;
                Ok(at + 1)
            })?;
            check!(n == left.len(), "rfold() passes {n} of {}", left.len());
        }
        7 => {
            // alternating ends through adaptors
            let k = rng.us(left.len() + 3);
            let g: Vec<T> = it.by_ref().skip(k).step_by(2).collect();
            let w: Vec<usize> = left.iter().copied().skip(k).step_by(2).collect();
            check!(g.len() == w.len(), "skip({k}).step_by(2) yields {} of {}", g.len(), w.len());
            for (x, i) in g.iter().zip(w) {
                same(x, i)?;
            }
            expect(it.next_back(), None, "next_back after everything was taken")?;
        }
        0 => {
            let c = it.count();
            check!(c == left.len(), "count() is {c}, {} are left", left.len());
        }
        1 => expect(it.last(), left.back().copied(), "last")?,
        2 => {
            let g: Vec<T> = it.rev().collect();
            check!(g.len() == left.len(), "rev() yields {} of {}", g.len(), left.len());
            for (x, i) in g.iter().zip(left.iter().rev()) {
                same(x, *i)?;
            }
        }
        3 => {
            let step = rng.range(1, 4) as usize;
            let g: Vec<T> = it.step_by(step).collect();
            let w: Vec<usize> = left.iter().copied().step_by(step).collect();
            check!(g.len() == w.len(), "step_by({step}) yields {} of {}", g.len(), w.len());
            for (x, i) in g.iter().zip(w) {
                same(x, i)?;
            }
        }
        _ => {
            for want in left {
                expect(it.next(), Some(want), "next")?;
            }
            for _ in 0..3 {
                expect(it.next(), None, "next at the end")?;
                expect(it.next_back(), None, "next_back at the end")?;
                check!(it.len() == 0, "len() at the end is {}", it.len());
            }
        }
    }
    Ok(())
}

fn run(ctx: &mut Ctx, idx: u64, rng: &mut Rng) -> R {
    let many = idx % 16_000 == 77;
    let src = rng.below(4);
    let t = if many || rng.chance(1, 2) {
        let n = if many { rng.range(66_000, 90_000) } else { rng.logsize(120) } as usize;
        gen_loose(rng, n, Text::Rich, 30, 4)
    } else {
        gen_trace(rng, &GenOpts::default())
    };
    let mut t = t;
    if rng.chance(1, 40) {
        t.evs.clear();
    }
    let (pd, start) = match src {
        0 => (cut("ProfilingDataBuilder", || build(&t.evs))?, UNIX_EPOCH),
        1 => (open_bytes(enc::file(&t, 8, Enc::Simple, Paging::Random, rng))?, start_of(&t)),
        _ => (open_bytes(enc::file(&t, 9, Enc::Mixed, Paging::Random, rng))?, start_of(&t)),
    };
    check!(pd.num_events() == t.evs.len(), "num_events() is {}, the profile has {} events", pd.num_events(), t.evs.len());
    if src == 0 {
        let m = pd.metadata();
        check!(m.start_time == UNIX_EPOCH, "profile built in memory starts at {:?}", m.start_time);
    }
    let mut h = Hasher64::new();
    h.add(t.key());
    let (mut steps, mut both) = (0, 0u8);
    let evs = &t.evs;
    let full = |e: &Event, i: usize| -> R {
        let g = ev_of(e, start)?;
        check!(g == evs[i], "event {i} reads as {} instead of {}", show_ev(&g), show_ev(&evs[i]));
        Ok(())
    };
    let pdr = &pd;
    let light = |e: &LightweightEvent, i: usize| -> R {
        let p = pay_of(&e.payload, start)?;
        check!(p == evs[i].pay && e.thread_id == evs[i].tid, "light-weight event {i} reads as {p:?} thread {} instead of {:?} thread {}", e.thread_id, evs[i].pay, evs[i].tid);
        check!(e.event_index == i, "light-weight event {i} has index {}", e.event_index);
        check!(e.start().map(|x| nanos(x, start)).transpose()? == evs[i].pay.start(), "start() of light-weight event {i}");
        check!(e.end().map(|x| nanos(x, start)).transpose()? == evs[i].pay.end(), "end() of light-weight event {i}");
        let d = match evs[i].pay {
            Pay::Interval(a, b) => Some(Duration::from_nanos(b - a)),
            _ => None,
        };
        check!(e.duration() == d, "duration() of light-weight event {i} is {:?} instead of {d:?}", e.duration());
        let f = pdr.to_full_event(e);
        full(&f, i)?;
        check!(f.duration() == d && f.payload == e.payload, "full and light-weight event {i} differ");
        check!(f.integer() == match evs[i].pay { Pay::Integer(v) => Some(v), _ => None }, "integer() of event {i}");
        Ok(())
    };
    for round in 0..rng.range(1, 4) {
        if round % 2 == 0 {
            cut("light-weight iteration", || drive(rng, pd.iter(), evs, &mut h, &mut steps, &mut both, &light))??;
        } else {
            cut("full iteration", || drive(rng, pd.iter_full(), evs, &mut h, &mut steps, &mut both, &full))??;
        }
    }
    // random access, repeatedly
    let all: Vec<LightweightEvent> = cut("collecting", || pd.iter().collect())?;
    check!(all.len() == evs.len(), "collect() yields {} of {}", all.len(), evs.len());
    for _ in 0..20.min(all.len()) {
        let i = rng.us(all.len());
        cut("to_full_event", || light(&all[i], i))??;
        let j = rng.us(all.len());
        let c = cut("contains", || (all[i].contains(&all[j]), pd.to_full_event(&all[i]).contains(&pd.to_full_event(&all[j]))))?;
        let w = match (&evs[i].pay, &evs[j].pay) {
            (Pay::Interval(a, b), x) => match (x.start(), x.end()) {
                (Some(s), Some(e)) => *a <= s && e <= *b,
                _ => false,
            },
            _ => false,
        };
        check!(c == (w, w), "contains({:?}, {:?}) is {c:?}", evs[i].pay, evs[j].pay);
    }
    ctx.count("iterator_operations", steps);
    ctx.maxc("events_in_a_profile", evs.len() as u64);
    ctx.count("events", evs.len() as u64);
    ctx.eval(if both == 3 { Some(h.0) } else { None });
    ctx.sample(|| format!("{steps} iterator operations over {}", t.brief()));
    Ok(())
}

//! C08: event values keep their full 48-bit range and kinds are never confused.
use super::*;
use analyzeme::ProfilingDataBuilder;
use measureme::{EventId, Profiler, RawEvent, StringId, MAX_INTERVAL_VALUE, MAX_SINGLE_VALUE};

pub fn props() -> Vec<Prop> {
    vec![prop("C08", 320000, run, "lists of values that differ and hold intervals, instants and integers")]
}

fn out_of_range(rng: &mut Rng, max: u64) -> u64 {
    match rng.below(6) {
        0 => max + 1,
        1 => max + 2,
        2 => u64::MAX,
        3 => 1 << rng.range(48, 63),
        4 => (1 << rng.range(48, 63)) | val48(rng, max),
        _ => rng.range(max + 1, u64::MAX),
    }
}

fn raw_check(rng: &mut Rng, pay: &Pay) -> R {
    let (kind, id) = (StringId::new(rng.next()), EventId::from_u64(rng.next()));
    let tid = val32(rng);
    let ev = cut("creating a raw event", || match *pay {
        Pay::Interval(s, e) => RawEvent::new_interval(kind, id, tid, s, e),
        Pay::Instant(t) => RawEvent::new_instant(kind, id, tid, t),
        Pay::Integer(v) => RawEvent::new_integer(kind, id, tid, v),
    })?;
    let verify = |ev: &RawEvent, what: &str| -> R {
        check!(ev.event_kind == kind && ev.event_id == id && ev.thread_id == tid, "{what}: ids altered in {ev:?}");
        let (i, n) = (ev.is_instant(), ev.is_integer());
        let got = match (i, n) {
            (false, false) => Pay::Interval(ev.start_value(), ev.end_value()),
            (true, false) => Pay::Instant(ev.start_value()),
            (false, true) => Pay::Integer(ev.value()),
            _ => return viol("both instant and integer"),
        };
        check!(got == *pay, "{what}: {pay:?} reads as {got:?}");
        Ok(())
    };
    verify(&ev, "raw event")?;
    let mut b = [0xAAu8; 32];
    cut("serialize", || ev.serialize(&mut b))?;
    let ev2 = cut("deserialize", || RawEvent::deserialize(&b))?;
    verify(&ev2, "serialized raw event")?;
    check!(ev == ev2, "a raw event changed when it was serialized");
    // against the documented layout
    let mut want = Vec::new();
    crate::enc::put_event(&mut want, 9, kind.as_u64(), id.as_u64(), tid, pay);
    check!(want[..] == b[..], "{pay:?} is serialized as {b:02x?} instead of {want:02x?}");
    Ok(())
}

fn run(ctx: &mut Ctx, idx: u64, rng: &mut Rng) -> R {
    check!(MAX_INTERVAL_VALUE == MAX_INTERVAL && MAX_SINGLE_VALUE == MAX_SINGLE, "the documented limits changed");
    let n = rng.range(3, 40) as usize;
    let pays: Vec<Pay> = (0..n).map(|_| gen_pay(rng)).collect();
    for p in &pays {
        raw_check(rng, p)?;
    }
    // refused when recorded
    for _ in 0..6 {
        let (k, id) = (StringId::new(5u64), EventId::from_u64(6));
        let big = out_of_range(rng, MAX_SINGLE);
        let bigi = out_of_range(rng, MAX_INTERVAL);
        let a = val48(rng, MAX_INTERVAL);
        let b = val48(rng, MAX_INTERVAL);
        check!(traps(|| RawEvent::new_instant(k, id, 0, big)).is_err(), "instant {big} was accepted");
        check!(traps(|| RawEvent::new_integer(k, id, 0, big)).is_err(), "integer {big} was accepted");
        check!(traps(|| RawEvent::new_interval(k, id, 0, a, bigi)).is_err(), "interval {a}..{bigi} was accepted");
        check!(traps(|| RawEvent::new_interval(k, id, 0, bigi, bigi)).is_err(), "interval {bigi}..{bigi} was accepted");
        if a != b {
            check!(traps(|| RawEvent::new_interval(k, id, 0, a.max(b), a.min(b))).is_err(), "interval {}..{} was accepted", a.max(b), a.min(b));
        }
    }
    // a profile built from them
    let mut b = ProfilingDataBuilder::new();
    let mut rejected = 0;
    cut("building a profile", || {
        for (i, p) in pays.iter().enumerate() {
            let t = i as u32;
            match *p {
                Pay::Interval(s, e) => b.interval("k", "l", t, s, e, |_| {}),
                Pay::Instant(x) => b.instant("k", "l", t, x),
                Pay::Integer(x) => b.integer("k", "l", t, x),
            };
            if rng.chance(1, 6) {
                let v = out_of_range(rng, MAX_SINGLE);
                let r = match rng.below(3) {
                    0 => traps(|| { b.integer("k", "bad", t, v); }),
                    1 => traps(|| { b.instant("k", "bad", t, v); }),
                    _ => traps(|| { b.interval("k", "bad", t, 0, v, |_| {}); }),
                };
                if r.is_ok() {
                    return Err(v);
                }
                rejected += 1;
            }
        }
        Ok(())
    })?
    .map_err(|v| Violation { msg: format!("the builder accepted the value {v}") })?;
    let pd = cut("into_profiling_data", || b.into_profiling_data())?;
    let want: Vec<Ev> = pays
        .iter()
        .enumerate()
        .map(|(i, p)| Ev { kind: "k".into(), label: "l".into(), args: vec![], tid: i as u32, pay: p.clone() })
        .collect();
    same_evs(&read_evs(&pd, UNIX_EPOCH)?, &want, "profile built in memory")?;
    // and, now and then, integers recorded by the profiler
    if idx % 4 == 0 {
        let dir = ctx.dir("c08");
        let stem = dir.join("p");
        let p = match cut("Profiler::new", || Profiler::new(&stem))? {
            Ok(p) => p,
            Err(e) => return viol(format!("Profiler::new failed: {e}")),
        };
        let k = p.alloc_string("k");
        let id = EventId::from_label(k);
        let mut vals = Vec::new();
        for _ in 0..rng.range(1, 20) {
            let v = val48(rng, MAX_SINGLE);
            cut("record_integer_event", || p.record_integer_event(k, id, 3, v))?;
            vals.push(v);
            if rng.chance(1, 4) {
                let v = out_of_range(rng, MAX_SINGLE);
                check!(traps(|| p.record_integer_event(k, id, 3, v)).is_err(), "record_integer_event accepted {v}");
                rejected += 1;
            }
        }
        drop(p);
        let pd = open_file(&stem)?;
        let got = read_evs(&pd, pd.metadata().start_time)?;
        let got: Vec<Pay> = got.into_iter().map(|e| e.pay).collect();
        check!(got == vals.iter().map(|v| Pay::Integer(*v)).collect::<Vec<_>>(), "integers {vals:?} read as {got:?}");
        ctx.count("integers_recorded", vals.len() as u64);
    }
    ctx.count("values", n as u64);
    ctx.count("out_of_range_values_refused", 24 + rejected);
    let mut h = Hasher64::new();
    let mut kinds = 0;
    for p in &pays {
        let (t, a, b) = match *p {
            Pay::Interval(a, b) => (1, a, b),
            Pay::Instant(a) => (2, a, 0),
            Pay::Integer(a) => (4, a, 0),
        };
        kinds |= t;
        h.add(t);
        h.add(a);
        h.add(b);
    }
    ctx.eval(if kinds == 7 { Some(h.0) } else { None });
    ctx.sample(|| format!("{:?}", &pays[..pays.len().min(4)]));
    Ok(())
}

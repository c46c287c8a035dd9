//! C31: questions about an event's time and value are answered from what was recorded.
use super::*;
use analyzeme::LightweightEvent;
use measureme::{EventId, RawEvent, StringId};
use std::borrow::Cow;
use std::collections::HashSet;

pub fn props() -> Vec<Prop> {
    vec![prop("C31", 900000, run, "lists of payloads that differ and hold intervals that touch, nest or cross")]
}

/// A point of time in ns before or after the epoch.
fn at(ns: i128) -> SystemTime {
    let d = Duration::from_nanos(ns.unsigned_abs() as u64);
    if ns >= 0 {
        UNIX_EPOCH + d
    } else {
        UNIX_EPOCH - d
    }
}

/// What a payload is, in ns; intervals may be inverted.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum M {
    Iv(i128, i128),
    At(i128),
    Int(u64),
}

impl M {
    fn payload(self) -> EventPayload {
        match self {
            M::Iv(a, b) => EventPayload::Timestamp(Timestamp::Interval { start: at(a), end: at(b) }),
            M::At(t) => EventPayload::Timestamp(Timestamp::Instant(at(t))),
            M::Int(v) => EventPayload::Integer(v),
        }
    }
    fn contains(self, o: M) -> bool {
        match (self, o) {
            (M::Iv(a, b), M::Iv(c, d)) => a <= c && d <= b,
            (M::Iv(a, b), M::At(t)) => a <= t && t <= b,
            _ => false,
        }
    }
    fn duration(self) -> Option<Duration> {
        match self {
            M::Iv(a, b) if b >= a => Some(Duration::from_nanos((b - a) as u64)),
            _ => None,
        }
    }
    fn ends(self) -> Option<(i128, i128)> {
        match self {
            M::Iv(a, b) => Some((a, b)),
            M::At(t) => Some((t, t)),
            M::Int(_) => None,
        }
    }
}

fn full(p: EventPayload, tid: u32) -> Event<'static> {
    Event { event_kind: Cow::Borrowed("k"), label: Cow::Borrowed("l"), additional_data: vec![], payload: p, thread_id: tid }
}

fn light(p: EventPayload, tid: u32, i: usize) -> LightweightEvent {
    LightweightEvent { event_index: i, thread_id: tid, payload: p }
}

fn single(m: M, p: EventPayload, what: &str) -> R {
    let kinds = (p.is_interval(), p.is_instant(), p.is_integer());
    let want = (matches!(m, M::Iv(..)), matches!(m, M::At(_)), matches!(m, M::Int(_)));
    check!(kinds == want, "{what}: is_interval, is_instant, is_integer are {kinds:?} for {m:?}");
    let int = if let M::Int(v) = m { Some(v) } else { None };
    check!(p.integer() == int, "{what}: integer() of {m:?} is {:?}", p.integer());
    check!(p.duration() == m.duration(), "{what}: duration() of {m:?} is {:?}", p.duration());
    let l = light(p, 7, 3);
    let f = full(p, 7);
    check!(l.duration() == m.duration() && f.duration() == m.duration(), "{what}: duration() of the events with {m:?}: {:?} and {:?}", l.duration(), f.duration());
    check!(f.integer() == int, "{what}: integer() of the event with {m:?} is {:?}", f.integer());
    let ends = m.ends().map(|(a, b)| (at(a), at(b)));
    check!(l.start() == ends.map(|x| x.0) && l.end() == ends.map(|x| x.1), "{what}: start() and end() of the event with {m:?}: {:?} {:?}", l.start(), l.end());
    check!(p.timestamp() == l.timestamp(), "{what}: timestamp() of {m:?} differs between payload and event");
    match (p.timestamp(), ends) {
        (None, None) => {}
        (Some(t), Some((a, b))) => {
            check!(t.start() == a && t.end() == b && t.is_instant() == want.1 && t.duration() == m.duration(), "{what}: timestamp {t:?} of {m:?}");
            check!(EventPayload::Timestamp(t) == p, "{what}: timestamp {t:?} of {m:?}");
        }
        (t, _) => return viol(format!("{what}: timestamp() of {m:?} is {t:?}")),
    }
    Ok(())
}

fn run(ctx: &mut Ctx, _idx: u64, rng: &mut Rng) -> R {
    let horizon = *rng.pick(&[3u64, 8, 40, 5_000_000_000, 1 << 47]);
    let origin: i128 = *rng.pick(&[0, -5, 1_600_000_000_000_000_000, 1_600_000_000_999_999_998, -3_000_000_000, (u64::MAX / 2) as i128]);
    let mut ms = vec![];
    let n = rng.range(2, 14);
    for _ in 0..n {
        let a = origin + rng.below(horizon) as i128;
        let b = origin + rng.below(horizon) as i128;
        ms.push(match rng.below(8) {
            0 | 1 => M::At(a),
            2 => M::Int(rng.next()),
            // what a damaged file can hold
            3 => M::Iv(a, b),
            _ => M::Iv(a.min(b), a.max(b)),
        });
    }
    let mut h = Hasher64::new();
    let mut related = false;
    for (i, &x) in ms.iter().enumerate() {
        let p = x.payload();
        cut("questions about one payload", || single(x, p, "payload"))??;
        for &y in &ms {
            let q = y.payload();
            let want = x.contains(y);
            let got = cut("contains", || (p.contains(&q), light(p, 1, 0).contains(&light(q, 2, 1)), full(p, 1).contains(&full(q, 2))))?;
            check!(got == (want, want, want), "{x:?} contains {y:?}: payload, light-weight and full event say {got:?}");
            related |= want && x != y;
            check!((p == q) == (x == y), "{x:?} == {y:?} is {}", p == q);
        }
        if let Some(t) = p.timestamp() {
            let mut ts: Vec<i128> = (0..3).map(|_| origin + rng.below(horizon) as i128).collect();
            if let Some((a, b)) = x.ends() {
                ts.extend([a - 1, a, a + 1, b - 1, b, b + 1]);
            }
            for s in ts {
                let want = matches!(x, M::Iv(a, b) if a <= s && s < b);
                let got = cut("Timestamp::contains", || t.contains(at(s)))?;
                check!(got == want, "timestamp {x:?} contains the time {s}: {got}");
            }
        }
        h.add(x.ends().map_or(1, |e| (e.0 as u64).rotate_left(21) ^ e.1 as u64 ^ ((i as u64) << 60)));
    }
    let set: HashSet<EventPayload> = ms.iter().map(|m| m.payload()).collect();
    let want: HashSet<M> = ms.iter().copied().collect();
    check!(set.len() == want.len(), "{} different payloads hash and compare as {}", want.len(), set.len());
    // as decoded from raw events
    let start_ns = rng.logsize(1 << 62) as i128;
    for _ in 0..4 {
        let pay = gen_pay(rng);
        let (k, id) = (StringId::new(1u64 << 40), EventId::from_u64(1 << 41));
        let (raw, m) = match pay {
            Pay::Interval(a, b) => (RawEvent::new_interval(k, id, 1, a, b), M::Iv(start_ns + a as i128, start_ns + b as i128)),
            Pay::Instant(t) => (RawEvent::new_instant(k, id, 1, t), M::At(start_ns + t as i128)),
            Pay::Integer(v) => (RawEvent::new_integer(k, id, 1, v), M::Int(v)),
        };
        let p = cut("from_raw_event", || EventPayload::from_raw_event(&raw, at(start_ns)))?;
        check!(p == m.payload(), "{pay:?} at a start time of {start_ns} ns decodes as {p:?}");
        cut("questions about a decoded payload", || single(m, p, "decoded payload"))??;
        if !matches!(pay, Pay::Integer(_)) {
            let t = cut("Timestamp::from_raw_event", || Timestamp::from_raw_event(&raw, at(start_ns)))?;
            check!(Some(t) == p.timestamp(), "{pay:?} decodes as the timestamp {t:?}");
        }
    }
    ctx.count("payloads", n + 4);
    ctx.count("pairs_compared", n * n);
    ctx.eval(if related { Some(h.0) } else { None });
    ctx.sample(|| format!("{ms:?}"));
    Ok(())
}

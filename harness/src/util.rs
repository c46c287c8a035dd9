//! Reading profiles through the library, and what everything imports.
pub use crate::check;
pub use crate::core::*;
pub use crate::gen::*;
pub use analyzeme::{Event, EventPayload, ProfilingData, Timestamp};
pub use std::path::{Path, PathBuf};
pub use std::time::{Duration, SystemTime, UNIX_EPOCH};

pub fn nanos(t: SystemTime, start: SystemTime) -> R<u64> {
    match t.duration_since(start) {
        Ok(d) => Ok(d.as_nanos() as u64),
        Err(_) => viol("time before the profile's start"),
    }
}

pub fn pay_of(p: &EventPayload, start: SystemTime) -> R<Pay> {
    Ok(match *p {
        EventPayload::Timestamp(Timestamp::Interval { start: s, end: e }) => Pay::Interval(nanos(s, start)?, nanos(e, start)?),
        EventPayload::Timestamp(Timestamp::Instant(t)) => Pay::Instant(nanos(t, start)?),
        EventPayload::Integer(i) => Pay::Integer(i),
    })
}

pub fn ev_of(e: &Event, start: SystemTime) -> R<Ev> {
    Ok(Ev {
        kind: e.event_kind.to_string(),
        label: e.label.to_string(),
        args: e.additional_data.iter().map(|a| a.to_string()).collect(),
        tid: e.thread_id,
        pay: pay_of(&e.payload, start)?,
    })
}

pub fn start_of(t: &Trace) -> SystemTime {
    UNIX_EPOCH + Duration::from_nanos(t.start_ns)
}

/// All events of a profile, as the library reads them.
pub fn read_evs(pd: &ProfilingData, start: SystemTime) -> R<Vec<Ev>> {
    let mut v = Vec::new();
    let evs = cut("iterating over the events", || {
        pd.iter_full().map(|e| ev_of(&e, start)).collect::<Vec<_>>()
    })?;
    for e in evs {
        v.push(e?);
    }
    Ok(v)
}

pub fn open_bytes(b: Vec<u8>) -> R<ProfilingData> {
    match cut("ProfilingData::from_paged_buffer", || ProfilingData::from_paged_buffer(b, None))? {
        Ok(p) => Ok(p),
        Err(e) => viol(format!("valid profile rejected: {e}")),
    }
}

pub fn open_file(p: &Path) -> R<ProfilingData> {
    match cut("ProfilingData::new", || ProfilingData::new(p))? {
        Ok(p) => Ok(p),
        Err(e) => viol(format!("valid profile {} rejected: {e}", p.display())),
    }
}

pub fn same_evs(got: &[Ev], want: &[Ev], what: &str) -> R {
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        check!(g == w, "{what}: event {i} of {} reads as {} but should be {}", want.len(), show_ev(g), show_ev(w));
    }
    check!(got.len() == want.len(), "{what}: {} events read, {} expected", got.len(), want.len());
    Ok(())
}

pub fn show_ev(e: &Ev) -> String {
    format!(
        "[kind {} label {} args {} tid {} {:?}]",
        show(&e.kind),
        show(&e.label),
        clip(&format!("{:?}", e.args.iter().map(|a| clip(a, 60)).collect::<Vec<_>>()), 300),
        e.tid,
        e.pay
    )
}

pub fn write_file(dir: &Path, name: &str, b: &[u8]) -> PathBuf {
    let p = dir.join(name);
    std::fs::write(&p, b).unwrap_or_else(|e| panic!("scratch write {}: {e}", p.display()));
    p
}

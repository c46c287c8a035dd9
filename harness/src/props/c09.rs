//! C09: the current on-disk format is exactly the documented one.
use super::c05::put_parts;
use super::*;
use crate::enc::{self, Enc, Paging};
use crate::refdec;
use measureme::{EventId, EventIdBuilder, Profiler, StringComponent, StringId};

pub fn props() -> Vec<Prop> {
    vec![prop("C09", 1600, run, "profiles that differ in events or strings and hold at least one event")]
}

fn run(ctx: &mut Ctx, idx: u64, rng: &mut Rng) -> R {
    if idx % 2 == 0 {
        written(ctx, idx, rng)
    } else {
        foreign(ctx, idx, rng)
    }
}

/// What the library writes, decoded by the documentation alone.
fn written(ctx: &mut Ctx, idx: u64, rng: &mut Rng) -> R {
    let dir = ctx.dir("c09");
    let stem = dir.join("p");
    let p = match cut("Profiler::new", || Profiler::new(&stem))? {
        Ok(p) => p,
        Err(e) => return viol(format!("Profiler::new failed: {e}")),
    };
    let b = EventIdBuilder::new(&p);
    let big = idx % 32 == 6;
    let n = if big { rng.range(3000, 20_000) } else { rng.logsize(200) };
    let mut virt = rng.below(1 << 20);
    let mut strings: Vec<(StringId, String)> = Vec::new();
    let mut want: Vec<(String, String, Vec<String>, u32, Option<u64>, u8)> = Vec::new();
    let mut bulk = 0;
    let ns = rng.range(3, 40);
    let r: R = cut("recording", || {
        for _ in 0..ns {
            let s = text1(rng, Text::Rich, if big { 3000 } else { 60 });
            let id = match rng.below(5) {
                0 if !strings.is_empty() => {
                    let (r, t) = strings[rng.us(strings.len())].clone();
                    let w = format!("{t}{s}{t}");
                    if w.len() > 5000 {
                        continue;
                    }
                    let id = put_parts(&p, &[StringComponent::Ref(r), StringComponent::Value(&s), StringComponent::Ref(r)], rng.below(3) as u8);
                    strings.push((id, w));
                    continue;
                }
                1 => {
                    let c = p.alloc_string(&s[..]);
                    let v = StringId::new_virtual(virt);
                    virt += 1;
                    p.map_virtual_to_concrete_string(v, c);
                    strings.push((c, s.clone()));
                    v
                }
                2 => {
                    let c = p.alloc_string(&s[..]);
                    let k = rng.logsize(if big { 40_000 } else { 300 });
                    let ids: Vec<StringId> = (0..k).map(|i| StringId::new_virtual(virt + i)).collect();
                    p.bulk_map_virtual_to_single_concrete_string(ids.iter().copied(), c);
                    for i in ids {
                        strings.push((i, s.clone()));
                    }
                    virt += k;
                    bulk += k;
                    c
                }
                _ => p.alloc_string(&s[..]),
            };
            strings.push((id, s));
        }
        for i in 0..n {
            let pick = |rng: &mut Rng| strings[if rng.chance(1, 2) { rng.us(strings.len()) } else { rng.us(strings.len().min(20)) }].clone();
            let (k, l) = (pick(rng), pick(rng));
            let a: Vec<(StringId, String)> = (0..rng.below(4)).map(|_| pick(rng)).collect();
            let ids: Vec<StringId> = a.iter().map(|x| x.0).collect();
            let id = if a.is_empty() { EventId::from_label(l.0) } else { b.from_label_and_args(l.0, &ids) };
            let tid = val32(rng);
            let args = a.into_iter().map(|x| x.1).collect();
            match rng.below(3) {
                0 => {
                    let v = val48(rng, MAX_SINGLE);
                    p.record_integer_event(k.0, id, tid, v);
                    want.push((k.1, l.1, args, tid, Some(v), 2));
                }
                1 => {
                    p.record_instant_event(k.0, id, tid);
                    want.push((k.1, l.1, args, tid, None, 1));
                }
                _ => {
                    drop(p.start_recording_interval_event(k.0, id, tid));
                    want.push((k.1, l.1, args, tid, None, 0));
                }
            }
            let _ = i;
        }
        Ok(())
    })?;
    r?;
    cut("dropping the profiler", || drop(p))?;
    let bytes = std::fs::read(stem.with_extension("mm_profdata")).map_err(|e| Violation { msg: format!("no profile file: {e}") })?;
    let d = match refdec::decode(&bytes) {
        Ok(d) => d,
        Err(e) => return viol(format!("the written file violates the documented format: {e}")),
    };
    check!(d.raw.len() == want.len(), "{} event records, {} events recorded", d.raw.len(), want.len());
    let pd = open_file(&stem)?;
    let start = pd.metadata().start_time;
    let lib = read_evs(&pd, start)?;
    for (i, (r, w)) in d.raw.iter().zip(&want).enumerate() {
        let e = match d.ev(r) {
            Ok(e) => e,
            Err(m) => return viol(format!("event {i}: {m}")),
        };
        let (what, v) = match e.pay {
            Pay::Interval(s, t) => {
                check!(s <= t, "event {i}: interval {s}..{t}");
                (0, None)
            }
            Pay::Instant(_) => (1, None),
            Pay::Integer(v) => (2, Some(v)),
        };
        check!((&e.kind, &e.label, &e.args, e.tid, what, v) == (&w.0, &w.1, &w.2, w.3, w.5, w.4), "event {i} is stored as {} but was recorded as {:?}", show_ev(&e), w);
        check!(lib[i] == e, "event {i} is stored as {} but read by the library as {}", show_ev(&e), show_ev(&lib[i]));
    }
    for (id, s) in &strings {
        match d.table.get(id.as_u64()) {
            Ok(x) => check!(&x == s, "string {} is stored as {} but was added as {}", id.as_u64(), show(&x), show(s)),
            Err(m) => return viol(format!("string {}: {m}", id.as_u64())),
        }
    }
    let m: serde_json::Value = match serde_json::from_str(&d.meta) {
        Ok(m) => m,
        Err(e) => return viol(format!("the metadata string is not JSON: {e}: {}", show(&d.meta))),
    };
    let st = start.duration_since(UNIX_EPOCH).unwrap().as_nanos() as u64;
    check!(m["start_time"].as_u64() == Some(st), "start_time {} vs {st}", m["start_time"]);
    check!(m["process_id"].as_u64() == Some(std::process::id() as u64), "process_id {}", m["process_id"]);
    check!(m["cmd"].as_str() == Some(&pd.metadata().cmd[..]), "cmd {}", m["cmd"]);
    check!(m["counter"].is_object(), "metadata without counter: {}", show(&d.meta));
    ctx.count("library_files_decoded", 1);
    ctx.count("pages", d.num_pages as u64);
    ctx.count("events", want.len() as u64);
    ctx.count("index_entries", d.table.index.len() as u64);
    let mut h = Hasher64::new();
    for w in &want {
        h.bytes(w.0.as_bytes());
        h.bytes(w.1.as_bytes());
        h.add(w.3 as u64);
    }
    ctx.eval(if want.is_empty() { None } else { Some(h.0) });
    ctx.sample(|| format!("library file: {} pages, {} events, {} strings, {bulk} bulk mappings decoded by the reference decoder", d.num_pages, want.len(), strings.len()));
    Ok(())
}

/// Files laid out by the reference encoder, read by the library.
fn foreign(ctx: &mut Ctx, idx: u64, rng: &mut Rng) -> R {
    let n = if idx % 64 == 7 { rng.range(9000, 20_000) } else { rng.logsize(150) } as usize;
    let ml = if rng.chance(1, 20) { 300_000 } else { 60 };
    let t = gen_loose(rng, n, Text::Rich, ml, 5);
    let p = *rng.pick(&[Paging::Single, Paging::Library, Paging::Random, Paging::Bytes]);
    let bytes = enc::file(&t, 9, Enc::Mixed, p, rng);
    // the reference decoder agrees with the reference encoder
    let d = refdec::decode(&bytes).expect("reference decoder");
    assert!(d.evs().expect("reference decoder") == t.evs, "reference encoder and decoder disagree");
    let nbytes = bytes.len();
    let pd = if rng.chance(1, 4) {
        let dir = ctx.dir("c09f");
        write_file(&dir, "f.mm_profdata", &bytes);
        open_file(&dir.join("f"))?
    } else {
        open_bytes(bytes)?
    };
    let m = pd.metadata();
    check!(m.start_time == start_of(&t) && m.process_id == t.pid && m.cmd == t.cmd, "metadata {m:?} does not match start {} pid {} cmd {}", t.start_ns, t.pid, show(&t.cmd));
    check!(pd.num_events() == t.evs.len(), "num_events is {} for {} events", pd.num_events(), t.evs.len());
    same_evs(&read_evs(&pd, start_of(&t))?, &t.evs, "file of the reference encoder")?;
    ctx.count("reference_files_read", 1);
    ctx.count("reference_file_bytes", nbytes as u64);
    ctx.eval(if t.evs.is_empty() { None } else { Some(t.key()) });
    ctx.sample(|| format!("reference file ({p:?}): {}", t.brief()));
    Ok(())
}

//! C10: files of the previous format version read the same as current ones.
use super::*;
use crate::enc::{self, Enc, Paging};
use analyzeme::collapse_stacks;

pub fn props() -> Vec<Prop> {
    vec![prop("C10", 50000, run, "traces that differ and hold at least two events")]
}

macro_rules! write_old {
    ($m:ident, $t:expr, $path:expr, $rng:expr) => {{
        use std::io::Write;
        let t: &Trace = $t;
        let mut f = std::fs::File::create($path).unwrap();
        f.write_all(b"MMPD").unwrap();
        f.write_all(&$m::file_header::CURRENT_FILE_FORMAT_VERSION.to_le_bytes()).unwrap();
        let b = $m::SerializationSinkBuilder::new_from_file(f).unwrap();
        let ev = b.new_sink($m::PageTag::Events);
        ev.as_std_write().write_all(b"MMES").unwrap();
        ev.as_std_write().write_all(&$m::file_header::CURRENT_FILE_FORMAT_VERSION.to_le_bytes()).unwrap();
        let st = $m::StringTableBuilder::new(
            std::sync::Arc::new(b.new_sink($m::PageTag::StringData)),
            std::sync::Arc::new(b.new_sink($m::PageTag::StringIndex)),
        )
        .unwrap();
        let meta = enc::metadata_json(t, false);
        st.alloc_metadata(&meta[..]);
        let mut ids: std::collections::HashMap<String, $m::StringId> = Default::default();
        let mut virt = 0u32;
        let rng: &mut Rng = $rng;
        for e in &t.evs {
            let mut get = |s: &str, rng: &mut Rng| {
                if let Some(i) = ids.get(s) {
                    return *i;
                }
                let mut i = st.alloc(s);
                if rng.chance(1, 3) {
                    let v = $m::StringId::new_virtual(virt);
                    virt += 1;
                    st.map_virtual_to_concrete_string(v, i);
                    i = v;
                }
                ids.insert(s.to_string(), i);
                i
            };
            let k = get(&e.kind, rng);
            let l = get(&e.label, rng);
            let id = if e.args.is_empty() {
                l
            } else {
                let mut parts = vec![$m::StringComponent::Ref(l)];
                for a in &e.args {
                    parts.push($m::StringComponent::Value("\x1E"));
                    parts.push($m::StringComponent::Ref(get(a, rng)));
                }
                st.alloc(&parts[..])
            };
            let id = $m::EventId::from_virtual(id);
            let r = match e.pay {
                Pay::Interval(s, t) => $m::RawEvent::new_interval(k, id, e.tid, s, t),
                Pay::Instant(t) => $m::RawEvent::new_instant(k, id, e.tid, t),
                Pay::Integer(v) => $m::RawEvent::new_integer(k, id, e.tid, v),
            };
            let n = std::mem::size_of::<$m::RawEvent>();
            ev.write_atomic(n, |b| r.serialize(b));
        }
    }};
}

fn run(ctx: &mut Ctx, idx: u64, rng: &mut Rng) -> R {
    if idx == 0 {
        known_divergence(ctx, rng)?;
        known_overflow(ctx, rng)?;
    }
    let nested = idx % 6400 != 3 && rng.chance(1, 2);
    let t = if nested {
        gen_trace(rng, &GenOpts { max_events: 200, kinds_text: true, ..Default::default() })
    } else {
        let n = if idx % 6400 == 3 { rng.range(66_000, 90_000) } else { rng.logsize(if idx % 32 == 3 { 20_000 } else { 200 }) } as usize;
        gen_loose(rng, n, Text::Rich, 80, 5)
    };
    let dir = ctx.dir("c10");
    let by_library = rng.chance(1, 3);
    let (old, new) = if by_library {
        let (a, b) = (dir.join("a.mm_profdata"), dir.join("b.mm_profdata"));
        let mut r2 = rng.clone();
        write_old!(measureme_10, &t, &a, &mut r2);
        {
            // the same data as a current file
            let mut r2 = rng.clone();
            let bytes = enc::file(&t, 9, Enc::Mixed, Paging::Library, &mut r2);
            std::fs::write(&b, bytes).unwrap();
        }
        (open_file(&a)?, open_file(&b)?)
    } else {
        let p = *rng.pick(&[Paging::Single, Paging::Library, Paging::Random]);
        let e = *rng.pick(&[Enc::Simple, Enc::Mixed]);
        (open_bytes(enc::file(&t, 8, e, p, rng))?, open_bytes(enc::file(&t, 9, Enc::Mixed, Paging::Single, rng))?)
    };
    let start = start_of(&t);
    for (pd, v) in [(&old, 8), (&new, 9)] {
        let m = pd.metadata();
        check!(m.start_time == start && m.process_id == t.pid && m.cmd == t.cmd, "version {v}: metadata reads as {m:?} instead of start {} pid {} cmd {}", t.start_ns, t.pid, show(&t.cmd));
        check!(pd.num_events() == t.evs.len(), "version {v}: num_events() is {} for {} events", pd.num_events(), t.evs.len());
        same_evs(&read_evs(pd, start)?, &t.evs, &format!("version {v} file"))?;
    }
    // the same iteration results, from both ends
    let r: R = cut("iterating", || {
        let (mut a, mut b) = (old.iter(), new.iter());
        loop {
            check!(a.len() == b.len(), "{} and {} events left", a.len(), b.len());
            let (x, y) = if rng.chance(1, 2) { (a.next(), b.next()) } else { (a.next_back(), b.next_back()) };
            check!(x == y, "light-weight events differ: {x:?} and {y:?}");
            let (x, y) = match (x, y) {
                (Some(x), Some(y)) => (x, y),
                _ => break,
            };
            check!(old.to_full_event(&x) == new.to_full_event(&y), "full events {} differ", x.event_index);
            check!(x.duration() == y.duration() && x.start() == y.start() && x.end() == y.end(), "times of event {} differ", x.event_index);
        }
        Ok(())
    })?;
    r?;
    if nested {
        let (a, b) = cut("collapse_stacks", || (collapse_stacks(&old), collapse_stacks(&new)))?;
        check!(a == b, "the collapsed stacks differ between the versions");
        let (mut a, mut b) = cut("perform_analysis", || (old.perform_analysis(), new.perform_analysis()))?;
        a.query_data.sort_by(|x, y| x.label.cmp(&y.label));
        b.query_data.sort_by(|x, y| x.label.cmp(&y.label));
        a.artifact_sizes.sort_by(|x, y| x.label.cmp(&y.label));
        b.artifact_sizes.sort_by(|x, y| x.label.cmp(&y.label));
        let (a, b) = (serde_json::to_string(&a).unwrap(), serde_json::to_string(&b).unwrap());
        check!(a == b, "the analyses differ between the versions: {} and {}", clip(&a, 300), clip(&b, 300));
        ctx.count("analyses_compared", 1);
    }
    ctx.maxc("events_in_a_profile", t.evs.len() as u64);
    ctx.count("events", t.evs.len() as u64);
    ctx.count(if by_library { "files_of_measureme_10" } else { "files_of_reference_encoder" }, 1);
    ctx.eval(if t.evs.len() >= 2 { Some(t.key()) } else { None });
    ctx.sample(|| t.brief());
    Ok(())
}

/// The one divergence listed in known-findings.txt: a version-8 string at address p that starts with a reference
/// and has its first 0xFF byte at relative offset p + 5 reads (in the old crate, through to_string) as the
/// referenced string alone. Everything but that exact outcome, or the right one, is a violation.
fn known_divergence(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let t = Trace { evs: vec![], start_ns: 1, pid: 2, cmd: "c".into() };
    let mut s = enc::encode(&t, 8, Enc::Simple, rng);
    let mut st = enc::StrEnc { v: 8, data: std::mem::take(&mut s.data), index: std::mem::take(&mut s.index), avoid: false };
    let a = st.add(&[enc::Part::S("head")]);
    let p = st.data.len();
    let tail = "t".repeat(p);
    let id = st.add(&[enc::Part::Id(a), enc::Part::S(&tail)]);
    let k = st.add(&[enc::Part::S("k")]);
    enc::put_event(&mut s.events, 8, k, id, 0, &Pay::Integer(1));
    s.data = st.data;
    s.index = st.index;
    let pd = open_bytes(enc::paginate(&s, Paging::Single, rng))?;
    let e = read_evs(&pd, UNIX_EPOCH + Duration::from_nanos(1))?;
    let right = format!("head{tail}");
    check!(e.len() == 1 && e[0].kind == "k" && (e[0].label == right || e[0].label == "head"), "version-8 string reads as {}", show_ev(&e[0]));
    ctx.count(if e[0].label == right { "known_divergence_gone" } else { "known_divergence_seen" }, 1);
    Ok(())
}

/// The version-8 file of the other entry in known-findings.txt: a label nested `n` references deep.
fn nested_v8(n: u64, rng: &mut Rng) -> Vec<u8> {
    let t = Trace { evs: vec![], start_ns: 1, pid: 2, cmd: "c".into() };
    let mut s = enc::encode(&t, 8, Enc::Simple, rng);
    let mut st = enc::StrEnc { v: 8, data: std::mem::take(&mut s.data), index: std::mem::take(&mut s.index), avoid: true };
    let k = st.add(&[enc::Part::S("k")]);
    let mut id = st.add(&[enc::Part::S("x")]);
    for _ in 0..n {
        id = st.add(&[enc::Part::S("y"), enc::Part::Id(id)]);
    }
    enc::put_event(&mut s.events, 8, k, id, 0, &Pay::Integer(1));
    s.data = st.data;
    s.index = st.index;
    enc::paginate(&s, Paging::Single, rng)
}

/// helper: c10 STEM, prints the length of the only event's label
pub fn helper(args: &[String]) {
    let pd = ProfilingData::new(Path::new(&args[0])).unwrap();
    println!("{}", pd.iter_full().next().unwrap().label.len());
}

/// Reading a version-8 string nested a million references deep overflows the stack in the old crate.
fn known_overflow(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let dir = ctx.dir("c10");
    for (n, known) in [(5_000u64, false), (1_000_000, true)] {
        write_file(&dir, "p.mm_profdata", &nested_v8(n, rng));
        let mut c = std::process::Command::new(&ctx.exe);
        c.args(["helper", "c10", "p"]).current_dir(&dir).env_remove("LD_PRELOAD");
        let o = crate::tools::run_cmd(c, "reading a deeply nested version-8 string")?;
        let right = o.ok() && o.out().trim() == (n + 1).to_string();
        let overflow = o.signal == Some(6) && o.err().contains("overflowed its stack");
        check!(right || known && overflow, "a version-8 string nested {n} references deep: {}", o.brief());
        if known {
            ctx.count(if right { "known_overflow_gone" } else { "known_overflow_seen" }, 1);
        }
    }
    Ok(())
}

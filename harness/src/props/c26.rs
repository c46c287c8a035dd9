//! C26: how a file is cut into pages never affects what is read.
use super::*;
use crate::enc::{self, Enc, Paging, Streams};
use crate::refdec;
use analyzeme::collapse_stacks;
use measureme::{PageTag, Profiler};

pub fn props() -> Vec<Prop> {
    vec![prop("C26", 30000, run, "distinct stream contents of at least two events, each read in several page divisions")]
}

const CUTS: &[&str] = &["single", "library", "random", "bytes", "equal", "at_marks", "one_off", "runs", "tiny_interleaved", "reversed", "at_magic"];

/// What headers begin with.
const MAGIC: [&str; 4] = ["MMPD", "MMES", "MMSD", "MMSI"];

/// Divides the three streams into pages in the named way.
fn divide(s: &Streams, how: &str, rng: &mut Rng) -> Vec<u8> {
    match how {
        "single" => return enc::paginate(s, Paging::Single, rng),
        "library" => return enc::paginate(s, Paging::Library, rng),
        "random" => return enc::paginate(s, Paging::Random, rng),
        "bytes" => return enc::paginate(s, Paging::Bytes, rng),
        _ => {}
    }
    let st: [(&[u8], u8); 3] = [(&s.events, 0), (&s.data, 1), (&s.index, 2)];
    // the page sizes of each stream
    let mut pages: [Vec<usize>; 3] = Default::default();
    let eq = rng.range(1, 70) as usize;
    for (i, (b, _)) in st.iter().enumerate() {
        let mut at = 0;
        while at < b.len() {
            let left = b.len() - at;
            let n = match how {
                // every page the same size, never a multiple of anything in particular
                "equal" => eq,
                // right after bytes with a meaning in the string encoding
                "at_marks" => b[at..].iter().skip(rng.us(3)).position(|c| [0xFE, 0xFF, 0x1E, 0xC3, 0xF0].contains(c)).unwrap_or(left) + 1,
                // right before something that looks like a header
                "at_magic" => b[at + 1..].windows(4).position(|w| MAGIC.iter().any(|m| m.as_bytes() == w)).map_or(left, |i| i + 1),
                // around record boundaries
                "one_off" => (*rng.pick(&[8usize, 16, 20, 24, 32, 64]) + rng.us(3)).saturating_sub(1),
                // long runs and small crumbs
                "runs" => {
                    if rng.chance(1, 2) {
                        rng.range(1, 4) as usize
                    } else {
                        rng.logsize(left as u64) as usize
                    }
                }
                "tiny_interleaved" => rng.range(1, 3) as usize,
                _ => rng.range(1, 500) as usize,
            };
            let n = n.clamp(1, left);
            pages[i].push(n);
            at += n;
        }
    }
    let mut out = b"MMPD".to_vec();
    out.extend_from_slice(&s.v.to_le_bytes());
    let (mut next, mut pos) = ([0usize; 3], [0usize; 3]);
    // whole streams after one another in an unusual order, or mixed
    let blocks = how == "reversed" || rng.chance(1, 6);
    let mut order = [2usize, 1, 0];
    if how != "reversed" {
        rng.shuffle(&mut order);
    }
    loop {
        let live: Vec<usize> = order.iter().copied().filter(|&i| next[i] < pages[i].len()).collect();
        if live.is_empty() {
            break;
        }
        let i = if blocks { live[0] } else { *rng.pick(&live) };
        let n = pages[i][next[i]];
        enc::put_page(&mut out, st[i].1, &st[i].0[pos[i]..pos[i] + n]);
        pos[i] += n;
        next[i] += 1;
    }
    out
}

/// A profile written by the library itself.
fn recorded(ctx: &Ctx, rng: &mut Rng) -> R<Vec<u8>> {
    let stem = ctx.dir("c26").join("p");
    {
        let p = match Profiler::new(&stem) {
            Ok(p) => p,
            Err(e) => return viol(format!("Profiler::new: {e}")),
        };
        let n = rng.logsize(800);
        let mut ids = vec![p.alloc_string("first")];
        for _ in 0..n {
            if rng.chance(1, 2) {
                let l = rng.logsize(200) as usize;
                ids.push(p.alloc_string(&text_len(rng, Text::Rich, l)[..]));
                if rng.chance(1, 10) {
                    ids.push(p.alloc_string(&format!("{}{}", rng.pick(&MAGIC), text_len(rng, Text::Rich, l))[..]));
                }
            }
            let (k, l) = (*rng.pick(&ids), *rng.pick(&ids));
            let id = if rng.chance(1, 2) { measureme::EventId::from_label(l) } else { measureme::EventIdBuilder::new(&p).from_label_and_arg(l, k) };
            match rng.below(3) {
                0 => p.record_integer_event(k, id, val32(rng), val48(rng, crate::gen::MAX_SINGLE)),
                1 => p.record_instant_event(k, id, val32(rng)),
                _ => drop(p.start_recording_interval_event(k, id, val32(rng))),
            }
        }
    }
    Ok(std::fs::read(stem.with_extension("mm_profdata")).unwrap())
}

fn run(ctx: &mut Ctx, idx: u64, rng: &mut Rng) -> R {
    if idx % 4000 == 1234 {
        huge(ctx, rng)?;
    }
    if rng.chance(1, 8) {
        raw(ctx, rng)?;
    }
    let nested = rng.chance(1, 2);
    let v = if rng.chance(1, 3) { 8 } else { 9 };
    let (s, n) = if rng.chance(1, 4) {
        let b = recorded(ctx, rng)?;
        let d = match refdec::decode(&b) {
            Ok(d) => d,
            Err(e) => return viol(format!("the recorded file is not in the documented format: {e}")),
        };
        ctx.count("recorded_profiles", 1);
        (refdec_streams(&b)?, d.raw.len())
    } else {
        let mut t = if nested { gen_trace(rng, &GenOpts { max_events: 60, kinds_text: true, ..Default::default() }) } else { let n = rng.logsize(120) as usize; gen_loose(rng, n, Text::Rich, 60, 4) };
        if rng.chance(1, 3) {
            // texts that look like headers
            for e in t.evs.iter_mut() {
                if rng.chance(1, 3) && !nested {
                    e.label = format!("{}{}", rng.pick(&MAGIC), e.label);
                }
                for a in e.args.iter_mut() {
                    if rng.chance(1, 3) {
                        *a = format!("{}{a}", rng.pick(&MAGIC));
                    }
                }
            }
        }
        let e = *rng.pick(&[Enc::Simple, Enc::Mixed]);
        (enc::encode(&t, v, e, rng), t.evs.len())
    };
    let first = divide(&s, "single", rng);
    let a = open_bytes(first.clone())?;
    let start = a.metadata().start_time;
    let evs = read_evs(&a, start)?;
    check!(evs.len() == n, "{} events read of {n}", evs.len());
    for _ in 0..rng.range(2, 5) {
        let how = *rng.pick(CUTS);
        let bytes = divide(&s, how, rng);
        let what = format!("a version-{} file of {} events, divided into pages '{how}' instead of one page per stream", s.v, n);
        let b = match cut(&what, || ProfilingData::from_paged_buffer(bytes.clone(), None))? {
            Ok(b) => b,
            Err(e) => return viol(format!("{what}: rejected: {e}")),
        };
        check!(format!("{:?}", a.metadata()) == format!("{:?}", b.metadata()), "{what}: metadata {:?} instead of {:?}", b.metadata(), a.metadata());
        check!(b.num_events() == n, "{what}: num_events {} instead of {n}", b.num_events());
        same_evs(&read_evs(&b, start)?, &evs, &what)?;
        let light = cut(&what, || a.iter().eq(b.iter()))?;
        check!(light, "{what}: light-weight events differ");
        if nested && s.v == v {
            let (x, y) = cut(&what, || (collapse_stacks(&a), collapse_stacks(&b)))?;
            check!(x == y, "{what}: collapsed stacks differ");
        }
        // the public stream splitter must give the same streams
        let m = match cut(&what, || measureme::split_streams(&bytes[8..])) {
            Ok(m) => m,
            Err(e) => return Err(e),
        };
        for (tag, want) in [(PageTag::Events, &s.events), (PageTag::StringData, &s.data), (PageTag::StringIndex, &s.index)] {
            check!(m.get(&tag) == Some(want), "{what}: stream {tag:?} is split out with {} bytes instead of {}", m.get(&tag).map_or(0, |x| x.len()), want.len());
        }
        ctx.count(&format!("divided_{how}"), 1);
        ctx.count("bytes_in_pages", bytes.len() as u64);
    }
    ctx.eval(if n >= 2 { Some(hash_bytes(&first)) } else { None });
    ctx.sample(|| format!("version {} with {n} events, {} + {} + {} bytes", s.v, s.events.len(), s.data.len(), s.index.len()));
    Ok(())
}

fn refdec_streams(b: &[u8]) -> R<Streams> {
    let st = refdec::streams(&b[8..]).map_err(|e| Violation { msg: format!("the recorded file is not in the documented format: {e}") })?;
    Ok(Streams { v: 9, events: st[0].clone(), data: st[1].clone(), index: st[2].clone() })
}

/// Arbitrary stream contents through the public splitter.
fn raw(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let mut mk = |rng: &mut Rng| {
        let n = 1 + rng.logsize(5000) as usize;
        let mut b = (0..n).map(|_| rng.below(256) as u8).collect::<Vec<u8>>();
        for _ in 0..rng.below(4) {
            let (at, m) = (rng.us(n), *rng.pick(&MAGIC));
            // whole headers, too
            let m = [m.as_bytes(), &9u32.to_le_bytes()[..]].concat();
            let k = (rng.range(4, 9) as usize).min(m.len()).min(n - at);
            b[at..at + k].copy_from_slice(&m[..k]);
        }
        b
    };
    let s = Streams { v: 9, events: mk(rng), data: mk(rng), index: mk(rng) };
    for how in CUTS {
        let bytes = divide(&s, how, rng);
        let m = cut("split_streams", || measureme::split_streams(&bytes[8..]))?;
        for (tag, want) in [(PageTag::Events, &s.events), (PageTag::StringData, &s.data), (PageTag::StringIndex, &s.index)] {
            let got = m.get(&tag).cloned().unwrap_or_default();
            check!(got == *want, "arbitrary contents divided '{how}': stream {tag:?} of {} bytes is split out differently ({} bytes)", want.len(), got.len());
        }
    }
    ctx.count("arbitrary_contents_split", 1);
    Ok(())
}

/// A page whose size needs all four bytes of its length field.
fn huge(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = (1usize << 24) + rng.us(1 << 20);
    let fill = rng.next() as u8;
    let big: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(7) ^ fill ^ (i >> 13) as u8).collect();
    let small = |rng: &mut Rng| (0..1 + rng.us(40)).map(|_| rng.below(256) as u8).collect::<Vec<u8>>();
    let which = rng.us(3);
    let mut st = [small(rng), small(rng), small(rng)];
    st[which] = big;
    let (before, after) = (rng.us(n), small(rng));
    let mut out = b"MMPD".to_vec();
    out.extend_from_slice(&9u32.to_le_bytes());
    let mut want = st.clone();
    // sometimes a second, smaller page of the same stream in front
    if rng.chance(1, 2) {
        let k = before % 1000 + 1;
        enc::put_page(&mut out, which as u8, &st[which][..k]);
        want[which] = [&st[which][..k], &st[which][..]].concat();
    }
    for i in [1, 2, 0] {
        enc::put_page(&mut out, i as u8, &st[i]);
    }
    enc::put_page(&mut out, which as u8, &after);
    want[which].extend_from_slice(&after);
    let m = cut("split_streams", || measureme::split_streams(&out[8..]))?;
    for (tag, w) in [(PageTag::Events, &want[0]), (PageTag::StringData, &want[1]), (PageTag::StringIndex, &want[2])] {
        let got = m.get(&tag).map_or(&[][..], |x| &x[..]);
        check!(got == &w[..], "a page of {n} bytes: stream {tag:?} of {} bytes is split out differently ({} bytes)", w.len(), got.len());
    }
    drop((m, want, st));
    // a real profile behind unused string data of that size
    let t = gen_trace(rng, &GenOpts { max_events: 12, ..Default::default() });
    let s = enc::encode(&t, 9, Enc::Simple, rng);
    let small = divide(&s, "random", rng);
    let mut padded = Streams { v: s.v, events: s.events.clone(), data: s.data.clone(), index: s.index.clone() };
    padded.data.resize(s.data.len() + n, b'x');
    let (a, b) = (open_bytes(small)?, open_bytes(divide(&padded, "single", rng))?);
    let start = a.metadata().start_time;
    same_evs(&read_evs(&b, start)?, &read_evs(&a, start)?, &format!("a file with a string data page of {} bytes", padded.data.len()))?;
    ctx.count("pages_over_16_mib", 2);
    Ok(())
}

//! C11: unreadable input is rejected with an error, never a crash.
use super::*;
use crate::enc::{self, put_page, Enc, Paging, StrEnc, Streams};
use crate::refdec;

pub fn props() -> Vec<Prop> {
    vec![prop("C11", 300000, run, "damaged inputs that differ in content")]
}

/// Opens damaged data through every entry point; all of them must return an error.
fn rejected(ctx: &mut Ctx, bytes: &[u8], v: u32, what: &str, to_file: bool) -> R<String> {
    let r = cut(&format!("{what}: ProfilingData::from_paged_buffer"), || ProfilingData::from_paged_buffer(bytes.to_vec(), None))?;
    let msg = match r {
        Err(e) => cut("formatting the error", || format!("{e}"))?,
        Ok(pd) => {
            let n = traps(|| pd.num_events());
            return viol(format!("{what}: accepted (version {v}), num_events() = {n:?}"));
        }
    };
    check!(!msg.is_empty(), "{what}: the error says nothing");
    if v == 9 {
        let r = cut(&format!("{what}: decodeme::EventDecoder::new"), || decodeme::EventDecoder::new(bytes.to_vec(), Some(Path::new("x"))).map(|d| d.num_events()))?;
        check!(r.is_err(), "{what}: accepted by decodeme::EventDecoder::new with {r:?} events");
    }
    if to_file {
        let d = ctx.scratch.join("c11.mm_profdata");
        std::fs::write(&d, bytes).unwrap();
        let r = cut(&format!("{what}: ProfilingData::new"), || ProfilingData::new(&ctx.scratch.join("c11")))?;
        check!(r.is_err(), "{what}: accepted by ProfilingData::new");
    }
    Ok(msg)
}

fn assemble(s: &Streams, skip: Option<u8>, p: Paging, rng: &mut Rng) -> Vec<u8> {
    match skip {
        None => enc::paginate(s, p, rng),
        Some(t) => {
            let f = enc::paginate(s, p, rng);
            let mut out = f[..8].to_vec();
            for pg in refdec::pages(&f[8..]).unwrap() {
                if pg.tag != t {
                    put_page(&mut out, pg.tag, &f[8 + pg.off..8 + pg.off + pg.len]);
                }
            }
            out
        }
    }
}

/// A file that cannot be read, and how it was made.
pub struct Damaged {
    pub bytes: Vec<u8>,
    pub kind: usize,
    pub name: String,
    pub want_version: Option<u32>,
}

pub const KINDS: [&str; 13] = ["unknown_tag", "empty_page", "page_past_end", "incomplete_page_header", "missing_stream", "stream_header", "partial_event", "partial_index_record", "no_metadata", "metadata_address", "malformed_metadata", "malformed_metadata", "file_header"];

/// The file of `t` in format version `v`, damaged.
pub fn damage(t: &Trace, v: u32, rng: &mut Rng) -> Damaged {
    let (isz, rsz) = if v == 8 { (8usize, 24usize) } else { (16, 32) };
    let e = *rng.pick(&[Enc::Simple, Enc::Mixed]);
    let mut s = enc::encode(t, v, e, rng);
    let p = *rng.pick(&[Paging::Single, Paging::Random, Paging::Random, Paging::Library]);
    let kind = rng.below(13);
    let mut name = String::new();
    let mut want_version: Option<u32> = None;
    let bytes: Vec<u8> = match kind {
        0 => {
            name += "unknown page tag";
            let mut f = enc::paginate(&s, p, rng);
            let pg = refdec::pages(&f[8..]).unwrap();
            let x = rng.pick(&pg);
            f[8 + x.off - 5] = *rng.pick(&[3u8, 4, 7, 77, 128, 254, 255]);
            f
        }
        1 => {
            name += "empty page";
            let f = enc::paginate(&s, p, rng);
            let pg = refdec::pages(&f[8..]).unwrap();
            let x = rng.us(pg.len() + 1);
            let at = if x == pg.len() { f.len() } else { 8 + pg[x].off - 5 };
            let mut o = f[..at].to_vec();
            put_page(&mut o, rng.below(3) as u8, &[]);
            o.extend_from_slice(&f[at..]);
            o
        }
        2 => {
            name += "page past the end";
            let mut f = enc::paginate(&s, p, rng);
            let pg = refdec::pages(&f[8..]).unwrap();
            let x = rng.pick(&pg);
            let at = 8 + x.off - 4;
            let room = f.len() - (8 + x.off);
            let over = match rng.below(4) {
                0 => 1,
                1 => rng.range(1, 5),
                2 => u32::MAX as u64 - room as u64 - rng.below(6),
                _ => rng.logsize(1 << 31).max(1),
            };
            let len = (room as u64 + over).min(u32::MAX as u64) as u32;
            f[at..at + 4].copy_from_slice(&len.to_le_bytes());
            f
        }
        3 => {
            name += "incomplete page header";
            let mut f = enc::paginate(&s, p, rng);
            let k = rng.range(1, 4) as usize;
            let h = [rng.below(3) as u8, 1, 0, 0, 0];
            f.extend_from_slice(&h[..k]);
            f
        }
        4 => {
            let t = rng.below(3) as u8;
            name += &format!("stream {t} missing");
            assemble(&s, Some(t), p, rng)
        }
        5 => {
            let k = rng.us(3);
            let st = [&mut s.events, &mut s.data, &mut s.index];
            let st = st.into_iter().nth(k).unwrap();
            match rng.below(4) {
                0 => {
                    name += &format!("stream {k} shorter than its header");
                    st.truncate(rng.range(1, 7) as usize);
                }
                1 => {
                    name += &format!("magic of stream {k} damaged");
                    st[rng.us(4)] ^= 1 << rng.below(8);
                }
                2 => {
                    name += &format!("magic of stream {k} is another stream's");
                    let m = [b"MMES", b"MMSD", b"MMSI", b"MMPD"];
                    let j = (k + 1 + rng.us(3)) % 4;
                    st[..4].copy_from_slice(m[j]);
                }
                _ => {
                    name += &format!("version of stream {k} differs");
                    let w = *rng.pick(&[0u32, 1, 7, 10, 17 - v, v << 8, u32::MAX]);
                    st[4..8].copy_from_slice(&w.to_le_bytes());
                }
            }
            enc::paginate(&s, p, rng)
        }
        6 => {
            let k = rng.range(1, rsz as u64 - 1) as usize;
            name += &format!("partial event record (+{k} bytes)");
            if rng.chance(1, 2) || s.events.len() < 8 + rsz {
                s.events.extend((0..k).map(|_| rng.next() as u8));
            } else {
                let l = s.events.len();
                s.events.truncate(l - k);
            }
            enc::paginate(&s, p, rng)
        }
        7 => {
            let k = rng.range(1, isz as u64 - 1) as usize;
            name += &format!("partial index record (+{k} bytes)");
            if rng.chance(1, 2) {
                s.index.extend((0..k).map(|_| rng.next() as u8));
            } else {
                let l = s.index.len();
                s.index.truncate(l - k);
            }
            enc::paginate(&s, p, rng)
        }
        8 => {
            name += "metadata not indexed";
            let meta = (enc::META_ID as u32).to_le_bytes();
            let mut ix = s.index[..8].to_vec();
            for c in s.index[8..].chunks(isz) {
                if c[..4] != meta {
                    ix.extend_from_slice(c);
                }
            }
            s.index = ix;
            enc::paginate(&s, p, rng)
        }
        9 => {
            name += "metadata address outside the string data";
            let meta = (enc::META_ID as u32).to_le_bytes();
            let len = s.data.len() as u64;
            let top = if v == 8 { u32::MAX as u64 } else { u64::MAX };
            let a = match rng.below(4) {
                0 => len,
                1 => len + rng.below(100),
                2 => top - rng.below(3),
                _ => len + rng.logsize(1 << 31),
            };
            for c in s.index[8..].chunks_mut(isz) {
                if c[..4] == meta {
                    if v == 8 {
                        c[4..8].copy_from_slice(&(a as u32).to_le_bytes());
                    } else {
                        c[8..16].copy_from_slice(&a.to_le_bytes());
                    }
                }
            }
            enc::paginate(&s, p, rng)
        }
        10 | 11 => {
            let good = enc::metadata_json(t, v == 9);
            let bad = match rng.below(12) {
                0 => String::new(),
                1 => "null".into(),
                2 => text(rng, Text::Plain, 20),
                3 => format!(r#"{{ "start_time": {}, "process_id": {} }}"#, t.start_ns, t.pid),
                4 => format!(r#"{{ "start_time": {}, "cmd": "x" }}"#, t.start_ns),
                5 => format!(r#"{{ "process_id": {}, "cmd": "x" }}"#, t.pid),
                6 => format!(r#"{{ "start_time": "{}", "process_id": {}, "cmd": "x" }}"#, t.start_ns, t.pid),
                7 => format!(r#"{{ "start_time": {}, "process_id": {}, "cmd": "x" }}"#, t.start_ns, *rng.pick(&["-1", "4294967296", "1.5", "\"1\"", "null"])),
                8 => format!(r#"{{ "start_time": {}, "process_id": {}, "cmd": {} }}"#, t.start_ns, t.pid, *rng.pick(&["7", "null", "[]", "x", "\"\\'\"", "\"\u{1}\""])),
                9 => format!(r#"{{ "start_time": {}, "process_id": 1, "cmd": "x" }}"#, *rng.pick(&["-5", "1e3", "18446744073709551616", "0.5", "null", "99999999999999999999999"])),
                10 => format!("{good}x"),
                _ => {
                    let mut k = rng.us(good.len());
                    while !good.is_char_boundary(k) {
                        k -= 1;
                    }
                    good[..k].to_string()
                }
            };
            name += &format!("malformed metadata {}", show(&bad));
            let mut st = StrEnc { v, data: std::mem::take(&mut s.data), index: std::mem::take(&mut s.index), avoid: v == 8 };
            if kind == 10 && rng.chance(1, 6) {
                name = "metadata that contains itself".into();
                let me = if rng.chance(1, 2) { enc::FIRST + st.data.len() as u64 } else { enc::META_ID };
                let parts: &[enc::Part] = match rng.below(5) {
                    0 => &[enc::Part::Id(me)],
                    1 => &[enc::Part::S("{"), enc::Part::Id(me)],
                    2 => &[enc::Part::Id(me), enc::Part::Id(me)],
                    3 => &[enc::Part::Id(me), enc::Part::S(&good)],
                    _ => &[enc::Part::S(&good), enc::Part::Id(me)],
                };
                let at = st.add(parts);
                let at = if rng.chance(1, 4) { st.add(&[enc::Part::Id(at)]) } else { at };
                st.map(enc::META_ID, at);
            } else if rng.chance(1, 5) {
                name = "metadata that refers to a string which is not there".into();
                let end = enc::FIRST + st.data.len() as u64;
                let beyond = match rng.below(5) {
                    // what follows is the metadata itself
                    0 => end + 2000 + good.len() as u64 * 2,
                    1 => end + 2000 + good.len() as u64 * 2 + rng.logsize(1 << 31),
                    2 => u32::MAX as u64 - rng.below(2),
                    // never mapped
                    3 => rng.below(enc::VMAX + 1),
                    _ => enc::FIRST - 1,
                };
                let at = match rng.below(5) {
                    0 => st.add(&[enc::Part::Id(beyond)]),
                    1 => st.add(&[enc::Part::S(&good), enc::Part::Id(beyond)]),
                    2 => st.add(&[enc::Part::Id(beyond), enc::Part::S(&good)]),
                    3 => {
                        let x = st.add(&[enc::Part::S(" "), enc::Part::Id(beyond)]);
                        st.add(&[enc::Part::S(&good), enc::Part::Id(x)])
                    }
                    _ => {
                        // the reference itself is cut off
                        let x = st.add(&[enc::Part::S(&good), enc::Part::Id(beyond)]);
                        let n = rng.range(1, if v == 8 { 5 } else { 9 });
                        st.data.truncate(st.data.len() - n as usize);
                        x
                    }
                };
                st.map(enc::META_ID, at);
            } else if kind == 11 && rng.chance(1, 3) {
                name = "unterminated metadata".into();
                let at = st.add(&[enc::Part::S(&good)]);
                st.data.pop();
                st.map(enc::META_ID, at);
            } else {
                let at = st.add(&[enc::Part::S(&bad)]);
                st.map(enc::META_ID, at);
            }
            s.data = st.data;
            s.index = st.index;
            // only one mapping of the metadata, the damaged one
            let meta = (enc::META_ID as u32).to_le_bytes();
            let ix: Vec<&[u8]> = s.index[8..].chunks(isz).collect();
            let mut new = s.index[..8].to_vec();
            for (i, c) in ix.iter().enumerate() {
                if c[..4] != meta || i + 1 == ix.len() {
                    new.extend_from_slice(c);
                }
            }
            s.index = new;
            enc::paginate(&s, p, rng)
        }
        _ => {
            let mut f = enc::paginate(&s, p, rng);
            if rng.chance(1, 4) {
                name += "foreign magic";
                match rng.below(3) {
                    0 => f[rng.us(4)] ^= 1 << rng.below(8),
                    1 => f[..4].copy_from_slice(*rng.pick(&[b"MMES", b"MMSD", b"MMSI"])),
                    _ => f[..4].copy_from_slice(b"\x7fELF"),
                }
            } else {
                let w = match rng.below(6) {
                    0 => rng.below(8) as u32,
                    1 => rng.range(10, 30) as u32,
                    2 => u32::MAX - rng.below(3) as u32,
                    3 => *rng.pick(&[8u32 << 8, 9 << 8, 9 << 24, 8 << 24, 9 << 16, 256, 265, 264]),
                    4 => 17 - v,
                    _ => (rng.next() as u32 >> rng.below(24)).max(10),
                };
                name += &format!("version {w} (was {v})");
                f[4..8].copy_from_slice(&w.to_le_bytes());
                if w != 17 - v {
                    want_version = Some(w);
                }
            }
            f
        }
    };
    Damaged { bytes, kind: kind as usize, name, want_version }
}

fn run(ctx: &mut Ctx, idx: u64, rng: &mut Rng) -> R {
    if idx % 16 == 0 {
        return odd_inputs(ctx, rng);
    }
    let v = if rng.chance(1, 3) { 8 } else { 9 };
    let n = rng.logsize(20) as usize;
    let t = gen_loose(rng, n, Text::Rich, 30, 3);
    let to_file = rng.chance(1, 30);
    if rng.chance(1, 20) {
        // the undamaged file is accepted
        let e = *rng.pick(&[Enc::Simple, Enc::Mixed]);
        let p = *rng.pick(&[Paging::Single, Paging::Random, Paging::Library]);
        let pd = open_bytes(enc::file(&t, v, e, p, rng))?;
        check!(pd.num_events() == t.evs.len(), "undamaged file: {} events instead of {}", pd.num_events(), t.evs.len());
        ctx.count("undamaged_controls", 1);
    }
    let Damaged { bytes, kind, name, want_version } = damage(&t, v, rng);
    let msg = rejected(ctx, &bytes, v, &name, to_file)?;
    if let Some(w) = want_version {
        check_version_msg(&msg, w)?;
        ctx.count("version_messages", 1);
    }
    ctx.count(KINDS[kind], 1);
    ctx.eval(Some(hash_bytes(&bytes)));
    ctx.sample(|| format!("{name} (version {v}, {} bytes): {msg}", bytes.len()));
    Ok(())
}

fn check_version_msg(msg: &str, w: u32) -> R {
    let l = msg.to_lowercase();
    let n = w.to_string();
    let mut ok = false;
    let b = l.as_bytes();
    for (i, _) in l.match_indices(&n) {
        let before = i > 0 && b[i - 1].is_ascii_digit();
        let after = b.get(i + n.len()).map(|c| c.is_ascii_digit()).unwrap_or(false);
        ok |= !before && !after;
    }
    check!(ok, "the error for version {w} does not state the version: {}", show(msg));
    let (new, old) = (l.contains("too new"), l.contains("too old") || l.contains("out-dated") || l.contains("outdated"));
    check!(new != old && new == (w > 9), "the error for version {w} does not say that it is too {}: {}", if w > 9 { "new" } else { "old" }, show(msg));
    Ok(())
}

fn odd_inputs(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let dir = ctx.dir("c11odd");
    let stem = dir.join("f");
    let path = dir.join("f.mm_profdata");
    let what;
    match rng.below(6) {
        0 => {
            what = "missing file".to_string();
            if rng.chance(1, 2) {
                write_file(&dir, *rng.pick(&["f.events", "f.string_data", "f.string_index"]), b"x");
            }
        }
        1 => {
            what = "a directory".into();
            std::fs::create_dir(&path).unwrap();
        }
        2 => {
            what = "a dangling link".into();
            std::os::unix::fs::symlink(dir.join("nowhere"), &path).unwrap();
        }
        3 => {
            what = "missing directory".into();
            let r = cut("missing directory: ProfilingData::new", || ProfilingData::new(&dir.join("no/such/dir/f")))?;
            check!(r.is_err(), "missing directory: accepted");
        }
        _ => {
            // short inputs, with or without a plausible beginning
            let n = rng.logsize(64) as usize;
            let mut b: Vec<u8> = Vec::new();
            if rng.chance(2, 3) {
                b.extend_from_slice(b"MMPD");
                b.extend_from_slice(&rng.pick(&[8u32, 9]).to_le_bytes());
                let k = rng.us(4);
                for _ in 0..k {
                    let m = *rng.pick(&[b"MMES", b"MMSD", b"MMSI"]);
                    let mut p = m.to_vec();
                    p.extend_from_slice(&rng.pick(&[8u32, 9]).to_le_bytes());
                    put_page(&mut b, rng.below(3) as u8, &p);
                }
            }
            b.extend((0..n).map(|_| if rng.chance(1, 2) { rng.below(4) as u8 } else { rng.next() as u8 }));
            if rng.chance(1, 2) {
                b.truncate(rng.us(b.len() + 1));
            }
            std::fs::write(&path, &b).unwrap();
            what = format!("short input {:?}", clip(&format!("{b:02x?}"), 200));
            let v = if b.len() > 4 { b[4] as u32 } else { 9 };
            rejected(ctx, &b, if v == 9 { 9 } else { 8 }, &what, false)?;
            ctx.count("short_inputs", 1);
            ctx.eval(Some(hash_bytes(&b)));
        }
    }
    let r = cut(&format!("{what}: ProfilingData::new"), || ProfilingData::new(&stem))?;
    check!(r.is_err(), "{what}: accepted by ProfilingData::new");
    ctx.count("odd_paths", 1);
    ctx.eval(None);
    Ok(())
}

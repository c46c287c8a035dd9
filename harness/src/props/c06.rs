//! C06: virtual strings resolve to the string they were mapped to.
use super::*;
use measureme::{EventId, EventIdBuilder, Profiler, StringComponent, StringId};
use std::collections::HashSet;

pub fn props() -> Vec<Prop> {
    vec![prop("C06", 9000, run, "sets of mappings (identifiers, texts, batch sizes) that differ and hold at least one bulk mapping")]
}

const MAX: u64 = crate::enc::VMAX;

fn fresh(rng: &mut Rng, used: &mut HashSet<u64>) -> u64 {
    loop {
        let v = match rng.below(6) {
            0 => rng.below(300),
            1 => MAX - rng.below(300),
            2 => *rng.pick(&[0, MAX, 0xFF, 0xFE, 0xFFFF, 0xFEFF, 0xFFFFFF, 0xFEFEFE, 0x100_0000, 1]),
            3 => rng.below(70_000),
            _ => rng.range(0, MAX),
        };
        if used.insert(v) {
            return v;
        }
        let v = rng.range(0, MAX);
        if used.insert(v) {
            return v;
        }
    }
}

/// Mappings to strings beyond 4 GiB of string data. The data itself goes to /dev/null;
/// the table is read from memory that holds only the strings of interest.
fn far(ctx: &mut Ctx, idx: u64, rng: &mut Rng) -> R {
    use measureme::{PageTag, SerializationSinkBuilder, StringTableBuilder};
    use std::sync::Arc;
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
    let db = SerializationSinkBuilder::new_from_file(null).unwrap();
    let ib = SerializationSinkBuilder::new_in_memory();
    let ds = Arc::new(db.new_sink(PageTag::StringData));
    let is = Arc::new(ib.new_sink(PageTag::StringIndex));
    let t = StringTableBuilder::new(ds.clone(), is.clone()).unwrap();
    let block = vec![0u8; 1 << 28];
    // (address, text) of strings, (virtual id, text) of mappings
    let mut strings: Vec<(u64, String)> = Vec::new();
    let mut want: Vec<(u64, String)> = Vec::new();
    let mut used = HashSet::new();
    let limit = if idx % 2 == 0 { 17u64 } else { 17 + rng.below(10) };
    let mut h = Hasher64::new();
    let mut k = 0;
    loop {
        for _ in 0..rng.range(1, 4) {
            let s = text1(rng, Text::Rich, 30);
            let c = cut("alloc", || t.alloc(&s[..]))?;
            let a = c.to_addr().0;
            check!(a >= k << 28, "a string added after {} bytes has the address {a}", k << 28);
            strings.push((a, s.clone()));
            if rng.chance(1, 2) {
                let v = fresh(rng, &mut used);
                cut("map_virtual_to_concrete_string", || t.map_virtual_to_concrete_string(StringId::new_virtual(v), c))?;
                want.push((v, s));
            } else {
                let ids: Vec<u64> = (0..rng.range(1, 40)).map(|_| fresh(rng, &mut used)).collect();
                cut("bulk_map", || t.bulk_map_virtual_to_single_concrete_string(ids.iter().map(|&v| StringId::new_virtual(v)).collect::<Vec<_>>().into_iter(), c))?;
                want.extend(ids.into_iter().map(|v| (v, s.clone())));
            }
        }
        if k == limit {
            break;
        }
        cut("writing filler", || ds.write_bytes_atomic(&block[..(1 << 28) - rng.us(3)]))?;
        k += 1;
    }
    drop(block);
    drop(t);
    let index = cut("into_bytes", || Arc::try_unwrap(is).unwrap().into_bytes())?;
    check!(index.len() == 8 + want.len() * 16, "{} bytes of index data for {} mappings", index.len(), want.len());
    // lazily zeroed
    let end = strings.last().map(|(a, s)| *a as usize + s.len() + 1).unwrap();
    let mut data = vec![0u8; end];
    data[..8].copy_from_slice(b"MMSD\x09\0\0\0");
    for (a, s) in &strings {
        let a = *a as usize;
        data[a..a + s.len()].copy_from_slice(s.as_bytes());
        data[a + s.len()] = 0xFF;
    }
    let table = match cut("StringTable::new", || decodeme::stringtable::StringTable::new(data, index, None))? {
        Ok(t) => t,
        Err(e) => return viol(format!("string table rejected: {e}")),
    };
    for (v, s) in &want {
        h.add(*v);
        h.bytes(s.as_bytes());
        let got = cut("to_string", || table.get(StringId::new_virtual(*v)).to_string())?;
        check!(got == *s, "virtual identifier {v} reads as {} instead of {} (in {end} bytes of string data)", show(&got), show(s));
    }
    ctx.count("identifiers_checked", want.len() as u64);
    ctx.count("tables_beyond_4GiB", 1);
    ctx.maxc("string_data_bytes", end as u64);
    ctx.eval(Some(h.0));
    Ok(())
}

fn run(ctx: &mut Ctx, idx: u64, rng: &mut Rng) -> R {
    if matches!(idx % 512, 6 | 133) && std::env::var_os("MMV_SANITIZED").is_none() {
        return far(ctx, idx, rng);
    }
    let dir = ctx.dir("c06");
    let stem = dir.join("p");
    let p = match cut("Profiler::new", || Profiler::new(&stem))? {
        Ok(p) => p,
        Err(e) => return viol(format!("Profiler::new failed: {e}")),
    };
    let mut used = HashSet::new();
    // (id, expected text) of everything checked
    let mut want: Vec<(StringId, String)> = Vec::new();
    let mut h = Hasher64::new();
    let k = p.alloc_string("k");
    let eid = |s: StringId| EventId::from_virtual(s);
    let mut n_events = 0u64;
    let mut events: Vec<(StringId, String)> = Vec::new();
    let mut bulk_total = 0u64;
    let mut rejected = 0u64;
    let rounds = rng.range(1, 12);
    let threads = rng.chance(1, 4);
    let mut unmapped: Vec<StringId> = Vec::new();
    for round in 0..rounds {
        match rng.below(8) {
            0..=2 => {
                // single mappings, some used before
                for _ in 0..rng.range(1, 30) {
                    let v = StringId::new_virtual(fresh(rng, &mut used));
                    let s = text1(rng, Text::Rich, 30);
                    h.add(v.as_u64());
                    h.bytes(s.as_bytes());
                    if rng.chance(1, 2) {
                        p.record_instant_event(v, eid(v), 1);
                        events.push((v, s.clone()));
                        n_events += 1;
                    }
                    // used inside another string before being mapped
                    let outer = if rng.chance(1, 2) {
                        Some(cut("alloc", || p.alloc_string(&[StringComponent::Value("<"), StringComponent::Ref(v), StringComponent::Value(">")]))?)
                    } else {
                        None
                    };
                    let c = cut("alloc", || p.alloc_string(&s[..]))?;
                    cut("map_virtual_to_concrete_string", || p.map_virtual_to_concrete_string(v, c))?;
                    if let Some(o) = outer {
                        want.push((o, format!("<{s}>")));
                        if rng.chance(1, 3) {
                            // a virtual id for a string that contains a virtual id
                            let v2 = StringId::new_virtual(fresh(rng, &mut used));
                            p.map_virtual_to_concrete_string(v2, o);
                            want.push((v2, format!("<{s}>")));
                        }
                    }
                    want.push((v, s));
                }
            }
            3..=5 => {
                let n = match rng.below(9) {
                    0 => 0,
                    1 => 1,
                    2 => rng.range(7, 9),
                    3 => rng.range(2, 100),
                    4 => rng.range(8190, 8194),
                    5 => rng.range(16382, 16386),
                    6 if idx % 4 == 1 => rng.range(16_384, 60_000),
                    7 => rng.logsize(3000),
                    _ => rng.logsize(500),
                };
                let s = text1(rng, Text::Rich, 30);
                let c = cut("alloc", || p.alloc_string(&s[..]))?;
                let mut ids: Vec<u64> = Vec::with_capacity(n as usize);
                if rng.chance(1, 2) {
                    // consecutive
                    let mut v = rng.range(0, MAX - n - 1);
                    while (ids.len() as u64) < n {
                        if used.insert(v) {
                            ids.push(v);
                        }
                        v = (v + 1) % MAX;
                    }
                } else {
                    for _ in 0..n {
                        ids.push(fresh(rng, &mut used));
                    }
                }
                h.add(n);
                h.bytes(s.as_bytes());
                if rng.chance(1, 2) {
                    cut("bulk_map", || p.bulk_map_virtual_to_single_concrete_string(ids.iter().map(|&i| StringId::new_virtual(i)), c))?;
                } else {
                    let v: Vec<StringId> = ids.iter().map(|&i| StringId::new_virtual(i)).collect();
                    cut("bulk_map", || p.bulk_map_virtual_to_single_concrete_string(v.into_iter(), c))?;
                }
                bulk_total += n;
                for i in ids {
                    want.push((StringId::new_virtual(i), s.clone()));
                }
            }
            6 => {
                // reserved identifiers are refused
                let r = [MAX + 1, MAX + 2, MAX + 3, MAX + 4 + rng.below(1000), u64::MAX, 1 << 32][rng.us(6)];
                check!(traps(|| StringId::new_virtual(r)).is_err(), "new_virtual({r}) created a reserved identifier");
                let c = p.alloc_string("evil");
                let id = StringId::new(r);
                check!(traps(|| p.map_virtual_to_concrete_string(id, c)).is_err(), "mapping the reserved identifier {r} was accepted");
                let good = fresh(rng, &mut used);
                let list = [StringId::new_virtual(good), id];
                let m = rng.us(2);
                check!(traps(|| p.bulk_map_virtual_to_single_concrete_string(list[m..].iter().copied(), c)).is_err(), "bulk mapping the reserved identifier {r} was accepted");
                rejected += 3;
                check!(StringId::new_virtual(MAX).is_virtual() && StringId::new_virtual(0u64).is_virtual(), "is_virtual of an ordinary virtual id");
            }
            _ => {
                let v = StringId::new_virtual(fresh(rng, &mut used));
                unmapped.push(v);
                want.push((v, "<unknown>".into()));
                let o = cut("alloc", || p.alloc_string(&[StringComponent::Ref(v), StringComponent::Value("x")]))?;
                want.push((o, "<unknown>x".into()));
            }
        }
        if threads && round == 0 {
            // concurrent mapping of disjoint sets
            let nt = rng.range(2, 6);
            let mut sets: Vec<(Vec<u64>, String, StringId)> = Vec::new();
            for t in 0..nt {
                for _ in 0..rng.range(1, 6) {
                    let n = rng.logsize(2000);
                    let ids: Vec<u64> = (0..n).map(|_| fresh(rng, &mut used)).collect();
                    let s = format!("t{t}-{}", text(rng, Text::Plain, 8));
                    let c = p.alloc_string(&s[..]);
                    bulk_total += n;
                    sets.push((ids, s, c));
                }
            }
            let mut bad = None;
            std::thread::scope(|sc| {
                let hs: Vec<_> = sets
                    .iter()
                    .enumerate()
                    .map(|(i, (ids, _, c))| {
                        let p = &p;
                        sc.spawn(move || {
                            cut("concurrent mapping", || {
                                if i % 3 == 0 {
                                    for v in ids {
                                        p.map_virtual_to_concrete_string(StringId::new_virtual(*v), *c);
                                    }
                                } else {
                                    p.bulk_map_virtual_to_single_concrete_string(ids.iter().map(|&v| StringId::new_virtual(v)), *c);
                                }
                            })
                        })
                    })
                    .collect();
                for h in hs {
                    if let Err(e) = h.join().unwrap() {
                        bad = Some(e);
                    }
                }
            });
            if let Some(e) = bad {
                return Err(e);
            }
            for (ids, s, _) in sets {
                for i in ids {
                    want.push((StringId::new_virtual(i), s.clone()));
                }
            }
        }
    }
    // every identifier as the kind of an event; a sample also as label and argument
    let b = EventIdBuilder::new(&p);
    let lab = p.alloc_string("L");
    let mut full: Vec<(String, String, Vec<String>)> = events.iter().map(|(_, s)| (s.clone(), s.clone(), vec![])).collect();
    for (i, (id, s)) in want.iter().enumerate() {
        if i % 7 == 3 {
            let e = b.from_label_and_args(*id, &[lab, *id]);
            p.record_integer_event(*id, e, 1, i as u64);
            full.push((s.clone(), s.clone(), vec!["L".into(), s.clone()]));
        } else if i % 7 == 5 {
            p.record_integer_event(k, eid(*id), 1, i as u64);
            full.push(("k".into(), s.clone(), vec![]));
        } else {
            p.record_integer_event(*id, eid(lab), 1, i as u64);
            full.push((s.clone(), "L".into(), vec![]));
        }
    }
    cut("dropping the profiler", || drop(p))?;
    let pd = open_file(&stem)?;
    let mut i = 0;
    cut("reading events", || -> R {
        for e in pd.iter_full() {
            check!(i < full.len(), "more events than recorded");
            let (kind, l, a) = &full[i];
            let w = (i as u64).checked_sub(n_events).map(|j| want[j as usize].0.as_u64());
            check!(e.event_kind == *kind, "event {i} (identifier {w:?}): kind reads as {} instead of {}", show(&e.event_kind), show(kind));
            check!(e.label == *l, "event {i} (identifier {w:?}): label reads as {} instead of {}", show(&e.label), show(l));
            check!(e.additional_data.iter().map(|x| x.to_string()).collect::<Vec<_>>() == *a, "event {i}: arguments read as {:?} instead of {:?}", e.additional_data, a);
            i += 1;
        }
        Ok(())
    })??;
    check!(i == full.len(), "{i} of {} events read", full.len());
    check!(pd.metadata().process_id == std::process::id(), "the metadata was altered");
    ctx.count("identifiers_checked", want.len() as u64);
    ctx.count("bulk_mapped", bulk_total);
    ctx.count("reserved_identifier_rejections", rejected);
    ctx.count("unmapped_identifiers", unmapped.len() as u64);
    ctx.eval(if bulk_total > 0 { Some(h.0) } else { None });
    ctx.sample(|| format!("{} identifiers, {bulk_total} of them mapped in bulk, {} never mapped, {rejected} reserved ones refused", want.len(), unmapped.len()));
    Ok(())
}

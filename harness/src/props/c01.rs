//! C01: stream writes are lossless and every address is exact.
use super::*;
use crate::refdec;
use measureme::{PageTag, SerializationSink, SerializationSinkBuilder};
use std::io::Write;

pub fn props() -> Vec<Prop> {
    vec![prop("C01", 8000, run, "sequences of writes whose (stream, size, method) lists differ and that cross at least one page boundary or mix streams")]
}

pub const TAGS: [PageTag; 3] = [PageTag::Events, PageTag::StringData, PageTag::StringIndex];
const KIB256: u64 = 256 * 1024;

/// A size with a bias for the sizes at which buffering decisions change.
pub fn size(rng: &mut Rng, room_to_half: u64, room_to_full: u64, big: bool) -> usize {
    let near = |rng: &mut Rng, c: u64| c.saturating_add(rng.below(5)).saturating_sub(2);
    (match rng.below(if big { 16 } else { 10 }) {
        0 => 0,
        1 => rng.range(1, 16),
        2 => rng.range(1, 300),
        3 => near(rng, 128),
        4 => near(rng, 32),
        5 => near(rng, 4096),
        6 => rng.range(1, 5000),
        7 => near(rng, room_to_full.min(40_000)),
        8 => near(rng, room_to_half.min(40_000)),
        9 => rng.range(1, 128),
        10 => near(rng, room_to_full),
        11 => near(rng, room_to_half),
        12 => near(rng, KIB256),
        13 => near(rng, KIB256 / 2),
        14 => {
            let k = rng.range(1, 4) * KIB256;
            let j = [0, KIB256 / 2][rng.us(2)];
            let r = if rng.chance(1, 2) { room_to_half } else { 0 };
            near(rng, k + j + r)
        }
        _ => rng.range(1, 700_000),
    }) as usize
}

pub fn fill(buf: &mut [u8], seed: u64) {
    let mut x = mix(seed);
    let mut it = buf.chunks_exact_mut(8);
    for c in &mut it {
        x = x.wrapping_add(0x9E3779B97F4A7C15);
        let v = x ^ (x >> 29).wrapping_mul(0xBF58476D1CE4E5B9);
        c.copy_from_slice(&v.to_le_bytes());
    }
    for (i, b) in it.into_remainder().iter_mut().enumerate() {
        *b = (x >> (i * 7)) as u8 ^ 0x5A;
    }
}

fn disk_streams(path: &std::path::Path) -> R<[Vec<u8>; 3]> {
    let b = std::fs::read(path).unwrap();
    match refdec::streams(&b) {
        Ok(s) => Ok(s),
        Err(e) => viol(format!("the file is not a sequence of pages: {e}")),
    }
}

fn same(got: &[u8], want: &[u8], what: &str) -> R {
    if got == want {
        return Ok(());
    }
    let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    viol(format!("{what}: {} bytes read back, {} written; first difference at offset {at}", got.len(), want.len()))
}

/// Streams far longer than 4 GiB; the data itself goes to /dev/null.
fn far(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
    let b = cut("new_from_file", || SerializationSinkBuilder::new_from_file(null).map_err(|e| e.to_string()))?.map_err(|m| Violation { msg: m })?;
    let n = rng.range(1, 2) as usize;
    let sinks: Vec<SerializationSink> = TAGS[..n].iter().map(|t| b.new_sink(*t)).collect();
    let big = vec![7u8; 48 << 20];
    let mut at = vec![0u64; n];
    let goal = rng.range((4 << 30) - (64 << 20), 9 << 30);
    let mut h = Hasher64::new();
    let mut writes = 0u64;
    let near = |a: u64| (a & 0xffff_ffff) > 0xffff_ffff - (50 << 20) || (a & 0xffff_ffff) < (1 << 20);
    while at.iter().any(|&a| a < goal) {
        let k = rng.us(n);
        if at[k] >= goal + (128 << 20) {
            continue;
        }
        let len = match rng.below(if near(at[k]) { 8 } else { 3 }) {
            0 | 1 | 2 => big.len() - rng.us(100_000),
            // up to or across the next multiple of 4 GiB
            3 => (((1u64 << 32) - (at[k] & 0xffff_ffff)) as usize).min(big.len()),
            4 => (((1u64 << 32) - (at[k] & 0xffff_ffff)) as usize + rng.us(9)).saturating_sub(4).min(big.len()),
            _ => rng.us(300_000),
        };
        let d = &big[..len];
        let a = match rng.below(3) {
            0 if len <= 1 << 20 => cut("write_atomic", || sinks[k].write_atomic(len, |x| x.copy_from_slice(d)))?,
            1 => {
                cut("write_all", || sinks[k].as_std_write().write_all(d).map_err(|e| e.to_string()))?.map_err(|m| Violation { msg: m })?;
                measureme::Addr(at[k])
            }
            _ => cut("write_bytes_atomic", || sinks[k].write_bytes_atomic(d))?,
        };
        check!(a.0 == at[k], "a write of {len} bytes returned address {} but the stream had {} bytes", a.0, at[k]);
        at[k] += len as u64;
        h.add(len as u64);
        writes += 1;
    }
    cut("dropping the streams", || drop(sinks))?;
    ctx.maxc("greatest_address", at.iter().copied().max().unwrap());
    ctx.count("writes", writes);
    ctx.eval(Some(h.0));
    Ok(())
}

fn run(ctx: &mut Ctx, idx: u64, rng: &mut Rng) -> R {
    if idx % 128 == 40 && std::env::var_os("MMV_SANITIZED").is_none() {
        return far(ctx, rng);
    }
    let in_file = rng.chance(1, 2);
    let nsinks = rng.range(1, 3) as usize;
    let mut tags = TAGS.to_vec();
    rng.shuffle(&mut tags);
    tags.truncate(nsinks);
    let path = ctx.scratch.join("c01.bin");
    let b = if in_file {
        let f = std::fs::File::create(&path).unwrap();
        cut("new_from_file", || SerializationSinkBuilder::new_from_file(f).map_err(|e| e.to_string()))?
            .map_err(|m| Violation { msg: m })?
    } else {
        SerializationSinkBuilder::new_in_memory()
    };
    let mut sinks: Vec<Option<SerializationSink>> = tags.iter().map(|t| Some(b.new_sink(*t))).collect();
    drop(b);
    let mut model: Vec<Vec<u8>> = vec![Vec::new(); nsinks];
    let style = rng.below(4);
    let big = style != 0;
    let ops = match style {
        0 => rng.range(1, 3000),
        1 => rng.range(1, 40),
        2 => rng.range(20, 200),
        _ => rng.range(1, 12),
    };
    let budget: usize = if idx % 64 == 63 { 24 << 20 } else { 4 << 20 };
    let mut total = 0usize;
    let mut h = Hasher64::new();
    // a rough idea of how full each buffer is, only used to aim sizes
    let mut fillg = vec![0u64; nsinks];
    let mut opsdone = 0u64;
    for op in 0..ops {
        let k = rng.us(nsinks);
        let sink = match &sinks[k] {
            Some(s) => s,
            None => continue,
        };
        let f = fillg[k];
        let n = size(rng, (KIB256 / 2).saturating_sub(f), KIB256.saturating_sub(f), big);
        if total + n > budget {
            break;
        }
        let n = if style == 0 { n.min(if rng.chance(1, 50) { 1 << 20 } else { 2000 }) } else { n };
        total += n;
        let m = &mut model[k];
        let old = m.len();
        m.resize(old + n, 0);
        fill(&mut m[old..], ctx.seed ^ (idx << 20) ^ op);
        let data = &m[old..];
        let how = rng.below(8);
        h.add(n as u64 * 64 + k as u64 * 8 + how);
        opsdone += 1;
        match how {
            0..=3 => {
                let mut seen = usize::MAX;
                let a = cut("write_atomic", || {
                    sink.write_atomic(n, |d| {
                        seen = d.len();
                        if d.len() == n {
                            d.copy_from_slice(data);
                        }
                    })
                })?;
                check!(seen == n, "write_atomic({n}) gave its callback a buffer of {seen} bytes");
                check!(a.0 == old as u64, "write_atomic({n}) returned address {} but the stream had {old} bytes", a.0);
            }
            4..=6 => {
                let a = cut("write_bytes_atomic", || sink.write_bytes_atomic(data))?;
                check!(a.0 == old as u64, "write_bytes_atomic({n} bytes) returned address {} but the stream had {old} bytes", a.0);
            }
            _ => {
                let r = cut("as_std_write", || sink.as_std_write().write_all(data).map_err(|e| e.to_string()))?;
                check!(r.is_ok(), "write_all through as_std_write failed: {:?}", r);
            }
        }
        fillg[k] += n as u64;
        while fillg[k] > KIB256 {
            fillg[k] -= KIB256 / 2;
        }
        if rng.chance(1, if in_file { 60 } else { 25 }) {
            let r = cut("flush", || sink.as_std_write().flush().map_err(|e| e.to_string()))?;
            check!(r.is_ok(), "flush failed: {:?}", r);
            fillg[k] = 0;
            ctx.count("flushes", 1);
            if in_file && total < (2 << 20) {
                let s = disk_streams(&path)?;
                same(&s[tags[k] as usize], &model[k], "right after a flush, the flushed stream in the file")?;
                for j in 0..nsinks {
                    let got = &s[tags[j] as usize];
                    check!(model[j].starts_with(got), "stream {j} in the file after flushing stream {k} is not a prefix of what was written");
                }
                ctx.count("flush_checks", 1);
            }
        }
        if rng.chance(1, 400) {
            // drop one stream early: its data must be in the storage
            sinks[k] = None;
            ctx.count("early_drops", 1);
            if in_file {
                let s = disk_streams(&path)?;
                same(&s[tags[k] as usize], &model[k], "after dropping a stream, that stream in the file")?;
            }
        }
    }
    // read everything back
    if in_file {
        let mut order: Vec<usize> = (0..nsinks).collect();
        rng.shuffle(&mut order);
        for k in order {
            if rng.chance(1, 3) {
                // dropped by a thread that unwinds from an unrelated panic
                let s = sinks[k].take();
                let r = traps(move || {
                    let _s = s;
                    if idx != u64::MAX {
                        panic!("unrelated");
                    }
                });
                check!(r.err().map_or(false, |m| m.contains("unrelated")), "dropping a stream while unwinding failed");
                ctx.count("dropped_while_unwinding", 1);
            } else {
                cut("dropping a stream", || sinks[k] = None)?;
            }
        }
        let s = disk_streams(&path)?;
        for k in 0..nsinks {
            same(&s[tags[k] as usize], &model[k], &format!("stream {:?} in the file", tags[k]))?;
        }
        let n: usize = s.iter().map(|x| x.len()).sum();
        check!(n == model.iter().map(|x| x.len()).sum::<usize>(), "the file holds data of streams that were never written");
        let bytes = std::fs::read(&path).unwrap();
        let lib = cut("split_streams", || measureme::split_streams(&bytes))?;
        for k in 0..nsinks {
            let empty = Vec::new();
            same(lib.get(&tags[k]).unwrap_or(&empty), &model[k], "stream split by the library")?;
        }
        ctx.count("pages", refdec::pages(&bytes).unwrap().len() as u64);
    } else {
        let mut order: Vec<usize> = (0..nsinks).filter(|&k| sinks[k].is_some()).collect();
        rng.shuffle(&mut order);
        for k in order {
            let s = sinks[k].take().unwrap();
            let got = cut("into_bytes", || s.into_bytes())?;
            same(&got, &model[k], &format!("stream {:?} in memory", tags[k]))?;
        }
    }
    ctx.count("writes", opsdone);
    ctx.count("bytes", total as u64);
    ctx.maxc("stream_bytes", model.iter().map(|m| m.len()).max().unwrap() as u64);
    let nt = total as u64 > KIB256 || nsinks > 1;
    ctx.eval(if nt { Some(h.0) } else { None });
    ctx.sample(|| format!("{} streams ({:?}) in {}, {opsdone} writes, {total} bytes, all addresses and contents as expected", nsinks, tags, if in_file { "a file" } else { "memory" }));
    Ok(())
}

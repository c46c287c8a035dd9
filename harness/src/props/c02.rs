//! C02: concurrent writers never lose, duplicate, tear or reorder data.
use super::c01::{fill, size, TAGS};
use super::*;
use crate::{refdec, shim};
use measureme::{SerializationSink, SerializationSinkBuilder};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier};

pub fn props() -> Vec<Prop> {
    vec![prop("C02", 2400, run, "concurrent histories (thread that made each write, in stream order) that differ and in which at least two threads alternate in one stream")]
}

struct W {
    sink: usize,
    id: u64,
    size: usize,
    /// None: written through as_std_write, the address has to be found
    addr: Option<u64>,
    before: u64,
    after: u64,
}

fn content(id: u64, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    fill(&mut v, id);
    if n >= 16 {
        v[..8].copy_from_slice(&id.to_le_bytes());
        v[8..16].copy_from_slice(&(n as u64).to_le_bytes());
    }
    v
}

fn nap(rng: &mut Rng, style: u64) {
    match style {
        0 => {}
        1 => std::thread::yield_now(),
        2 => {
            for _ in 0..rng.below(2000) {
                std::hint::spin_loop();
            }
        }
        _ => {
            if rng.chance(1, 8) {
                std::thread::sleep(Duration::from_micros(rng.below(120)));
            } else {
                std::thread::yield_now();
            }
        }
    }
}

/// Real-time order: writes sorted into stream order must respect "finished before the other started".
pub fn realtime(items: &[(u64, u64, u64, u64)], what: &str) -> R {
    // (address, end, before, after)
    let mut starts: Vec<usize> = (0..items.len()).collect();
    starts.sort_by_key(|&i| items[i].2);
    let mut ends: Vec<usize> = (0..items.len()).collect();
    ends.sort_by_key(|&i| items[i].3);
    let mut e = 0;
    let mut high = 0u64;
    for i in starts {
        while e < ends.len() && items[ends[e]].3 < items[i].2 {
            high = high.max(items[ends[e]].1);
            e += 1;
        }
        check!(items[i].0 >= high, "{what}: a write at {} was started after another one ending at {high} had returned", items[i].0);
    }
    Ok(())
}

fn run(ctx: &mut Ctx, idx: u64, rng: &mut Rng) -> R {
    let in_file = rng.chance(2, 3);
    let nsinks = if rng.chance(1, 2) { 1 } else { rng.range(2, 3) as usize };
    let nthreads = rng.range(2, 8) as usize;
    let mut tags = TAGS.to_vec();
    rng.shuffle(&mut tags);
    tags.truncate(nsinks);
    let path = ctx.scratch.join("c02.bin");
    let b = if in_file {
        let f = std::fs::File::create(&path).unwrap();
        SerializationSinkBuilder::new_from_file(f).map_err(|e| Violation { msg: e.to_string() })?
    } else {
        SerializationSinkBuilder::new_in_memory()
    };
    let sinks: Vec<Arc<SerializationSink>> = tags.iter().map(|t| Arc::new(b.new_sink(*t))).collect();
    drop(b);
    let tick = Arc::new(AtomicU64::new(1));
    let barrier = Arc::new(Barrier::new(nthreads));
    let big = rng.chance(1, 2);
    let ops = if big { rng.range(5, 60) } else { rng.range(50, 1200) };
    let budget = (12usize << 20) / nthreads;
    let delay = if in_file && rng.chance(1, 2) { rng.range(20, 300) as i64 } else { 0 };
    let ctl = shim::ctl();
    if let Some(c) = ctl {
        c.reset();
        shim::set(&c.seed, rng.next() as i64);
        shim::set(&c.delay_us, delay);
        if rng.chance(1, 3) {
            shim::set(&c.short_pm, 200);
            shim::set(&c.eintr_pm, 50);
        }
        shim::set(&c.armed, in_file as i64);
    }
    let style = rng.below(4);
    let mut hs = Vec::new();
    for t in 0..nthreads {
        let (sinks, tick, barrier) = (sinks.clone(), tick.clone(), barrier.clone());
        let mut rng = rng.fork();
        let base = (idx << 40) | ((t as u64 + 1) << 32);
        hs.push(std::thread::spawn(move || -> R<Vec<W>> {
            let mut out = Vec::new();
            let mut total = 0;
            barrier.wait();
            for op in 0..ops {
                let sink = rng.us(sinks.len());
                let n = if big { size(&mut rng, 70_000, 190_000, true) } else { size(&mut rng, 3000, 9000, false) };
                let how = rng.below(8);
                let n = if how >= 7 { n.max(24) } else { n };
                total += n;
                if total > budget {
                    break;
                }
                let id = base | op;
                let s = &sinks[sink];
                if rng.chance(1, 100) {
                    let before = tick.fetch_add(1, SeqCst);
                    let r = cut("flush", || s.as_std_write().flush().map_err(|e| e.to_string()))?;
                    check!(r.is_ok(), "flush failed: {r:?}");
                    let _ = before;
                }
                let data = content(id, n);
                let before = tick.fetch_add(1, SeqCst);
                let addr = match how {
                    0..=3 => {
                        let st = style;
                        let r = &mut rng;
                        Some(cut("write_atomic", || {
                            s.write_atomic(n, |d| {
                                if d.len() == data.len() {
                                    let m = n / 2;
                                    d[..m].copy_from_slice(&data[..m]);
                                    nap(r, st);
                                    d[m..].copy_from_slice(&data[m..]);
                                }
                            })
                        })?)
                    }
                    4..=6 => Some(cut("write_bytes_atomic", || s.write_bytes_atomic(&data))?),
                    _ => {
                        let r = cut("as_std_write", || s.as_std_write().write(&data).map_err(|e| e.to_string()))?;
                        check!(r == Ok(n), "as_std_write().write of {n} bytes returned {r:?}");
                        None
                    }
                };
                let after = tick.fetch_add(1, SeqCst);
                out.push(W { sink, id, size: n, addr: addr.map(|a| a.0), before, after });
            }
            Ok(out)
        }));
    }
    let mut ws: Vec<W> = Vec::new();
    let mut bad = None;
    for h in hs {
        match h.join() {
            Ok(Ok(v)) => ws.extend(v),
            Ok(Err(v)) => bad = bad.or(Some(v)),
            Err(_) => panic!("harness thread panicked"),
        }
    }
    if let Some(v) = bad {
        return Err(v);
    }
    // read back
    let mut streams: Vec<Vec<u8>> = Vec::new();
    if in_file {
        cut("dropping the streams", || drop(sinks))?;
        let bytes = std::fs::read(&path).unwrap();
        let mut s = match refdec::streams(&bytes) {
            Ok(s) => s,
            Err(e) => return viol(format!("the file is not a sequence of pages: {e}")),
        };
        for t in &tags {
            streams.push(std::mem::take(&mut s[*t as usize]));
        }
        check!(s.iter().all(|x| x.is_empty()), "the file holds pages of a stream that was never created");
    } else {
        for s in sinks {
            let s = Arc::try_unwrap(s).unwrap_or_else(|_| panic!("shared"));
            streams.push(cut("into_bytes", || s.into_bytes())?);
        }
    }
    if let Some(c) = ctl {
        ctx.count("injected_delays", shim::get(&c.n_delay) as u64);
        ctx.count("short_writes", shim::get(&c.n_short) as u64);
        c.reset();
    }
    let mut h = Hasher64::new();
    let mut switches = 0u64;
    for k in 0..nsinks {
        let st = &streams[k];
        let mut mine: Vec<&W> = ws.iter().filter(|w| w.sink == k).collect();
        mine.sort_by_key(|w| (w.addr.unwrap_or(u64::MAX), w.size));
        let mut free: std::collections::HashMap<u64, &W> =
            mine.iter().filter(|w| w.addr.is_none()).map(|w| (w.id, *w)).collect();
        let mut placed: Vec<(u64, u64, u64, u64)> = Vec::new();
        let mut order: Vec<u64> = Vec::new();
        let mut pos = 0u64;
        let at = |p: u64, w: &W| -> R {
            let e = p as usize + w.size;
            check!(e <= st.len(), "stream {:?}: the write of {} bytes at address {p} lies beyond the {} bytes of the stream", tags[k], w.size, st.len());
            let got = &st[p as usize..e];
            let want = content(w.id, w.size);
            if got != &want[..] {
                let o = got.iter().zip(&want).position(|(a, b)| a != b).unwrap();
                return viol(format!("stream {:?}: the {} bytes at address {p} are not the ones written there (first difference at +{o})", tags[k], w.size));
            }
            Ok(())
        };
        let mut i = 0;
        loop {
            if i < mine.len() {
                if let Some(a) = mine[i].addr {
                    if mine[i].size == 0 {
                        check!(a <= st.len() as u64, "an empty write got address {a} beyond the stream");
                        placed.push((a, a, mine[i].before, mine[i].after));
                        i += 1;
                        continue;
                    }
                    check!(a >= pos, "stream {:?}: a write of {} bytes got address {a}, which overlaps the write that ends at {pos}", tags[k], mine[i].size);
                    if a == pos {
                        at(a, mine[i])?;
                        placed.push((a, a + mine[i].size as u64, mine[i].before, mine[i].after));
                        order.push(mine[i].id >> 32);
                        pos += mine[i].size as u64;
                        i += 1;
                        continue;
                    }
                }
            }
            // here must be a write whose address is not known
            let p = pos as usize;
            if p == st.len() && (i >= mine.len() || mine[i].addr.is_none()) {
                break;
            }
            check!(p + 16 <= st.len(), "stream {:?}: {} bytes at {p} belong to no write (stream of {} bytes)", tags[k], st.len() - p.min(st.len()), st.len());
            let id = u64::from_le_bytes(st[p..p + 8].try_into().unwrap());
            let w = match free.remove(&id) {
                Some(w) => w,
                None => return viol(format!("stream {:?}: the bytes at {p} belong to no write that should be here", tags[k])),
            };
            at(pos, w)?;
            placed.push((pos, pos + w.size as u64, w.before, w.after));
            order.push(w.id >> 32);
            pos += w.size as u64;
        }
        check!(free.is_empty(), "stream {:?}: {} completed writes are missing", tags[k], free.len());
        check!(pos == st.len() as u64, "stream {:?} has {} bytes, its writes add up to {pos}", tags[k], st.len());
        realtime(&placed, &format!("stream {:?}", tags[k]))?;
        for w in order.windows(2) {
            if w[0] != w[1] {
                switches += 1;
            }
        }
        for o in &order {
            h.add(*o & 0xFF);
        }
        h.add(u64::MAX);
    }
    ctx.count("writes", ws.len() as u64);
    ctx.count("thread_switches_in_stream_order", switches);
    ctx.count("bytes", streams.iter().map(|s| s.len() as u64).sum());
    ctx.eval(if switches >= 2 { Some(h.0) } else { None });
    ctx.sample(|| format!("{nthreads} threads, {nsinks} streams in {}, {} writes, {switches} changes of writer in stream order, delays up to {delay} us", if in_file { "a file" } else { "memory" }, ws.len()));
    Ok(())
}

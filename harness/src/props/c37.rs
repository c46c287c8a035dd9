//! C37: every way of opening a profile reads the same, also shared by threads.
use super::*;
use crate::enc::{self, Enc, Paging};
use crate::refdec;
use decodeme::EventDecoder;

pub fn props() -> Vec<Prop> {
    vec![prop("C37", 60000, run, "distinct profiles, each opened in every way")]
}

/// What one way of opening tells.
#[derive(Clone, PartialEq, Debug)]
struct View {
    n: usize,
    meta: String,
    full: Vec<String>,
    light: Vec<String>,
}

fn of_data(pd: &ProfilingData, deep: bool) -> View {
    let light: Vec<_> = if deep { pd.iter().collect() } else { vec![] };
    View {
        n: pd.num_events(),
        meta: format!("{:?}", pd.metadata()),
        full: light.iter().map(|e| format!("{:?}", pd.to_full_event(e))).collect(),
        light: light.iter().map(|e| format!("{e:?}")).collect(),
    }
}

fn of_decoder(d: &EventDecoder, deep: bool) -> View {
    let n = d.num_events();
    let m = if deep { n } else { 0 };
    View {
        n,
        meta: format!("{:?}", d.metadata()),
        full: (0..m).map(|i| format!("{:?}", d.decode_full_event(i))).collect(),
        light: (0..m).map(|i| format!("{:?}", d.decode_lightweight_event(i))).collect(),
    }
}

/// Damage that is met while opening; returns whether what is left may still be decoded.
fn damage(b: &mut Vec<u8>, rng: &mut Rng) -> bool {
    match rng.below(8) {
        0 => {
            let n = rng.us(b.len() + 1);
            b.truncate(n);
            true
        }
        1 => {
            let i = rng.us(b.len().min(13));
            b[i] ^= 1 << rng.below(8);
            false
        }
        2 => {
            // the header of some page, or the beginning of some stream
            let ps = refdec::pages(&b[8..]).unwrap_or_default();
            let mut at = 8;
            let k = rng.us(ps.len().max(1));
            for p in ps.iter().take(k) {
                at += 5 + p.len;
            }
            let i = (at + rng.us(13)).min(b.len() - 1);
            b[i] ^= 1 << rng.below(8);
            false
        }
        3 => {
            let i = rng.us(b.len());
            b.remove(i);
            false
        }
        // whole pages left out, repeated or moved
        k @ 4..=6 => {
            let mut ps: Vec<(u8, Vec<u8>)> = vec![];
            let mut at = 8;
            for p in refdec::pages(&b[8..]).unwrap_or_default() {
                ps.push((b[at], b[at + 5..at + 5 + p.len].to_vec()));
                at += 5 + p.len;
            }
            for _ in 0..rng.range(1, 3) {
                let i = rng.us(ps.len());
                match k {
                    4 if ps.len() > 1 => {
                        ps.remove(i);
                    }
                    5 => {
                        let x = ps[i].clone();
                        ps.insert(rng.us(ps.len() + 1), x);
                    }
                    _ => {
                        let x = ps.remove(i);
                        ps.insert(rng.us(ps.len() + 1), x);
                    }
                }
            }
            b.truncate(8);
            for (t, d) in ps {
                enc::put_page(b, t, &d);
            }
            // events without their strings are not looked at
            false
        }
        _ => {
            b.extend((0..rng.range(1, 40)).map(|_| rng.below(4) as u8));
            false
        }
    }
}

fn run(ctx: &mut Ctx, _: u64, rng: &mut Rng) -> R {
    let dir = ctx.dir("c37");
    // texts that violate the grammar read the same everywhere as well
    let wild = rng.chance(1, 6);
    let t = match rng.below(4) {
        _ if wild => {
            let n = rng.logsize(60) as usize;
            gen_loose(rng, n, Text::Any, 30, 5)
        }
        0 => {
            let n = rng.logsize(300) as usize;
            gen_loose(rng, n, Text::Rich, 30, 5)
        }
        1 => {
            let evs = vec![];
            gen_meta(rng, evs, Text::Any)
        }
        _ => {
            let o = GenOpts { max_events: *rng.pick(&[3, 40, 300]), ..Default::default() };
            gen_trace(rng, &o)
        }
    };
    let v = *rng.pick(&[9u32, 9, 9, 8]);
    let mut b = enc::file(&t, v, Enc::Mixed, *rng.pick(&[Paging::Library, Paging::Random, Paging::Single]), rng);
    let damaged = rng.chance(2, 5);
    let deep = !damaged || damage(&mut b, rng);
    let p = write_file(&dir, "p.mm_profdata", &b);
    let other = PathBuf::from("/somewhere/else");

    let mut ways: Vec<(&str, Box<dyn Fn() -> Result<View, String>>)> = vec![];
    let s = |e: Box<dyn std::error::Error + Send + Sync>| e.to_string();
    for (name, path) in [("by its stem", dir.join("p")), ("by its name", p.clone()), ("by a roundabout name", dir.join(".").join("p"))] {
        ways.push((name, Box::new(move || ProfilingData::new(&path).map(|d| of_data(&d, deep)).map_err(s))));
    }
    for (name, path) in [("from memory", None), ("from memory under a name", Some(other.clone()))] {
        let b = b.clone();
        ways.push((name, Box::new(move || ProfilingData::from_paged_buffer(b.clone(), path.as_deref()).map(|d| of_data(&d, deep)).map_err(s))));
    }
    let current = b.len() >= 8 && b[..8] == *b"MMPD\x09\0\0\0";
    if v == 9 {
        for (name, path) in [("with the decoder", None), ("with the decoder under a name", Some(other.clone()))] {
            let b = b.clone();
            ways.push((name, Box::new(move || EventDecoder::new(b.clone(), path.as_deref()).map(|d| of_decoder(&d, deep)).map_err(s))));
        }
    }
    if current {
        if let Ok([e, d, i]) = refdec::streams(&b[8..]) {
            ways.push(("from its streams", Box::new(move || EventDecoder::from_separate_buffers(d.clone(), i.clone(), e.clone(), None).map(|d| of_decoder(&d, deep)).map_err(s))));
            ctx.count("opened_from_streams", 1);
        }
    }
    // whatever the order of openings
    let mut order: Vec<usize> = (0..ways.len()).collect();
    rng.shuffle(&mut order);
    let mut first: Option<(usize, Result<View, String>)> = None;
    for i in order {
        let (name, f) = &ways[i];
        let r = cut(&format!("opening a profile {name}"), || f())?;
        match (&first, &r) {
            (None, _) => first = Some((i, r)),
            (Some((j, Ok(a))), Ok(b)) => {
                let j = ways[*j].0;
                check!(a.n == b.n && a.meta == b.meta, "a profile opened {name}: {} events and {} instead of {} and {} {j}", b.n, b.meta, a.n, a.meta);
                for k in 0..a.full.len() {
                    check!(a.full[k] == b.full[k], "event {k} of a profile opened {name}: {} instead of {} {j}", b.full[k], a.full[k]);
                    check!(a.light[k] == b.light[k], "light-weight event {k} of a profile opened {name}: {} instead of {} {j}", b.light[k], a.light[k]);
                }
            }
            (Some((_, Err(_))), Err(_)) => {}
            (Some((j, a)), b) => {
                let short = |r: &Result<View, String>| r.as_ref().map(|v| v.n).map_err(|e| e.clone());
                return viol(format!("a profile of {} bytes opened {name} gives {:?}, but opened {} gives {:?}", std::fs::metadata(&p).map_or(0, |m| m.len()), short(b), ways[*j].0, short(a)));
            }
        }
        ctx.count("openings", 1);
    }
    let (_, r) = first.unwrap();
    match &r {
        Ok(_) if damaged => ctx.count("damaged_but_readable", 1),
        Ok(_) => ctx.count("intact", 1),
        Err(_) => ctx.count("refused", 1),
    }
    if !damaged {
        let want = match r {
            Ok(w) => w,
            Err(e) => return viol(format!("an intact profile cannot be opened: {e}")),
        };
        if !wild {
            same_evs(&read_evs(&open_bytes(b.clone())?, start_of(&t))?, &t.evs, "an intact profile")?;
        }
        if v == 9 {
            shared(ctx, rng, &b, &want)?;
        }
    }
    ctx.eval(Some(hash_bytes(&b)));
    ctx.sample(|| format!("version {v}, {} events, {}: {} ways", t.evs.len(), if damaged { "damaged" } else { "intact" }, ways.len()));
    Ok(())
}

/// One decoder used by several threads at once.
fn shared(ctx: &mut Ctx, rng: &mut Rng, b: &[u8], want: &View) -> R {
    if want.n == 0 {
        return Ok(());
    }
    let d = match cut("EventDecoder::new", || EventDecoder::new(b.to_vec(), None))? {
        Ok(d) => d,
        Err(e) => return viol(format!("an intact profile cannot be opened a second time: {e}")),
    };
    let n = rng.range(2, 5) as usize;
    let rngs: Vec<Rng> = (0..n).map(|_| rng.fork()).collect();
    let go = std::sync::Barrier::new(n);
    let rs: Vec<R<u64>> = std::thread::scope(|sc| {
        let hs: Vec<_> = rngs
            .into_iter()
            .map(|mut rng| {
                let (d, go) = (&d, &go);
                sc.spawn(move || -> R<u64> {
                    go.wait();
                    let steps = rng.range(1, 60);
                    for _ in 0..steps {
                        let i = rng.us(want.n);
                        let (what, got, want) = match rng.below(4) {
                            0 => ("light-weight event", cut("decode_lightweight_event", || format!("{:?}", d.decode_lightweight_event(i)))?, &want.light[i]),
                            1 => ("metadata", cut("metadata", || format!("{:?}", d.metadata()))?, &want.meta),
                            _ => ("event", cut("decode_full_event", || format!("{:?}", d.decode_full_event(i)))?, &want.full[i]),
                        };
                        check!(got == *want, "{what} {i} read by one of {n} threads that share a decoder: {got} instead of {want}");
                        check!(d.num_events() > i, "number of events changed");
                    }
                    Ok(steps)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for r in rs {
        ctx.count("reads_through_a_shared_decoder", r?);
    }
    ctx.count("shared_decoders", 1);
    Ok(())
}

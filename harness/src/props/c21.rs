//! C21: mmedit truncate yields a valid, faithful, smaller profile.
use super::*;
use crate::enc::{self, Enc, Paging};
use crate::tools;

pub fn props() -> Vec<Prop> {
    vec![prop("C21", 10000, run, "profiles that hold events before and after the cut")]
}

fn run(ctx: &mut Ctx, idx: u64, rng: &mut Rng) -> R {
    let dir = ctx.dir("c21");
    let big = idx % 64 == 5;
    let n = if big { 8000 + rng.us(14000) } else { rng.logsize(300) as usize };
    let t = if rng.chance(1, 2) || big {
        gen_loose(rng, n, Text::Rich, 60, 5)
    } else {
        gen_trace(rng, &GenOpts { max_events: 1 + n as u64, kinds_text: true, ..Default::default() })
    };
    let v = *rng.pick(&[8u32, 9, 9]);
    let rec = if v == 8 { 24 } else { 32 };
    let enc = *rng.pick(&[Enc::Simple, Enc::Mixed]);
    let s = enc::encode(&t, v, enc, rng);
    // the number of events in the first event page
    let per = page_events(rec);
    let (bytes, keep) = if big || rng.chance(1, 4) {
        (enc::paginate(&s, Paging::Library, rng), per.min(t.evs.len()))
    } else {
        // pages of whole records, mixed with pages of strings of any size
        let mut out = b"MMPD".to_vec();
        out.extend_from_slice(&v.to_le_bytes());
        let mut first = None;
        let mut pos = [0usize; 3];
        let st: [&[u8]; 3] = [&s.events, &s.data, &s.index];
        loop {
            let live: Vec<usize> = (0..3).filter(|&i| pos[i] < st[i].len()).collect();
            if live.is_empty() {
                break;
            }
            let i = *rng.pick(&live);
            let left = st[i].len() - pos[i];
            let n = if i == 0 {
                let head = if pos[0] == 0 { 8 } else { 0 };
                let max = (left - head) / rec;
                let mut k = match rng.below(3) {
                    0 => rng.us(4),
                    1 => rng.logsize(max as u64 + 1) as usize,
                    _ => rng.us(max + 1),
                }
                .min(max);
                if head == 0 {
                    k = k.max(1);
                }
                if first.is_none() {
                    first = Some(k);
                }
                head + k * rec
            } else {
                match rng.below(3) {
                    0 => 1 + rng.us(30),
                    1 => 1 + rng.logsize(left as u64) as usize,
                    _ => left,
                }
                .min(left)
            };
            enc::put_page(&mut out, i as u8, &st[i][pos[i]..pos[i] + n]);
            pos[i] += n;
        }
        (out, first.unwrap_or(0))
    };
    let name = *rng.pick(&["in.mm_profdata", "a b.mm_profdata", "noext", "x.y.mm_profdata", "é.mm_profdata", "in.truncated.mm_profdata", "truncated.mm_profdata"]);
    let p = write_file(&dir, name, &bytes);
    let given = if rng.chance(1, 3) { p.to_str().unwrap().to_string() } else { name.to_string() };
    // an older result may be in the way
    let old = rng.chance(1, 6).then(|| p.with_extension("truncated.mm_profdata"));
    if let Some(old) = &old {
        let n = rng.us(2 * bytes.len());
        std::fs::write(old, vec![0x55; n]).unwrap();
        ctx.count("older_results_replaced", 1);
    }
    let out = tools::tool(ctx, "mmedit", &["truncate", &given], &dir)?;
    let what = format!("mmedit truncate {name} (version {v}, {} events, {keep} in the first page)", t.evs.len());
    check!(out.ok(), "{what} failed: {}", out.brief());
    check!(std::fs::read(&p).map(|b| b == bytes).unwrap_or(false), "{what}: the input was altered");
    let mut new: Vec<PathBuf> = std::fs::read_dir(&dir).unwrap().map(|e| e.unwrap().path()).filter(|q| *q != p).collect();
    check!(new.len() == 1, "{what}: wrote {new:?}");
    let new = new.pop().unwrap();
    let b = std::fs::read(&new).unwrap_or_default();
    check!(b.len() <= bytes.len(), "{what}: the result of {} bytes is larger than the input of {}", b.len(), bytes.len());
    // read it like any other profile
    let pd = open_file(&new)?;
    let m = pd.metadata();
    check!(m.start_time == start_of(&t) && m.process_id == t.pid && m.cmd == t.cmd, "{what}: metadata {m:?} instead of start {} pid {} cmd {}", t.start_ns, t.pid, show(&t.cmd));
    check!(pd.num_events() == keep, "{what}: the result holds {} events", pd.num_events());
    let got = read_evs(&pd, start_of(&t))?;
    same_evs(&got, &t.evs[..keep], &what)?;
    if rng.chance(1, 8) {
        // there is nothing left to cut off the result
        let out = tools::tool(ctx, "mmedit", &["truncate".as_ref(), new.as_os_str()], &dir)?;
        check!(out.ok(), "{what}, once again: failed: {}", out.brief());
        check!(std::fs::read(&new).is_ok_and(|x| x == b), "{what}, once again: altered its input");
        let again = open_file(&new.with_extension("truncated.mm_profdata"))?;
        check!(again.num_events() == keep, "{what}, once again: {} events are left", again.num_events());
        let got = read_evs(&again, start_of(&t))?;
        same_evs(&got, &t.evs[..keep], &format!("{what}, once again"))?;
        ctx.count("truncated_twice", 1);
    }
    ctx.count("events_kept", keep as u64);
    ctx.count("events_cut", (t.evs.len() - keep) as u64);
    ctx.count(if v == 8 { "version_8" } else { "version_9" }, 1);
    let mut h = Hasher64::new();
    h.add(t.key());
    h.add(keep as u64);
    ctx.eval(if keep > 0 && keep < t.evs.len() { Some(h.0) } else { None });
    ctx.sample(|| what.clone());
    Ok(())
}

fn page_events(rec: usize) -> usize {
    (enc::PAGE / rec * rec - (rec - 8) - 8) / rec
}

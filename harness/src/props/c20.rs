//! C20: mmview prints every event, in order, with relative times.
use super::*;
use crate::enc::{self, Enc, Paging};
use crate::tools;
use std::collections::BTreeSet;

pub fn props() -> Vec<Prop> {
    vec![prop("C20", 12000, run, "(profile, thread filter) pairs that print at least two events")]
}

fn run(ctx: &mut Ctx, idx: u64, rng: &mut Rng) -> R {
    let dir = ctx.dir("c20");
    let mut t = match rng.below(3) {
        k if k == 0 || idx % 2000 == 13 => {
            let n = if idx % 2000 == 13 { rng.range(66_000, 90_000) as usize } else { *rng.pick(&[0usize, 1, 3, 12, 60]) };
            gen_loose(rng, n, Text::Line, 40, 5)
        }
        _ => {
            let o = GenOpts { max_events: *rng.pick(&[1, 4, 40, 200]), text: Text::Line, kinds_text: rng.chance(1, 2), horizon: *rng.pick(&[3000, 1 << 30, MAX_INTERVAL]), ..Default::default() };
            gen_trace(rng, &o)
        }
    };
    if rng.chance(1, 12) {
        // only integers, or only instants
        let ints = rng.chance(2, 3);
        for e in &mut t.evs {
            e.pay = match e.pay {
                Pay::Interval(s, _) | Pay::Instant(s) if ints => Pay::Integer(s),
                Pay::Interval(s, _) => Pay::Instant(s),
                Pay::Instant(s) => Pay::Instant(s),
                Pay::Integer(v) => Pay::Integer(v),
            };
        }
    }
    let b = enc::file(&t, *rng.pick(&[8u32, 9, 9]), Enc::Mixed, Paging::Random, rng);
    let p = write_file(&dir, "in.mm_profdata", &b);
    let mut args: Vec<String> = vec![if rng.chance(1, 2) { "in".into() } else { "in.mm_profdata".into() }];
    let mut only = None;
    if rng.chance(1, 2) {
        let tids: Vec<u32> = t.evs.iter().map(|e| e.tid).collect::<BTreeSet<_>>().into_iter().collect();
        let id = match rng.below(8) {
            0 => 0,
            1 => val32(rng),
            _ if !tids.is_empty() => *rng.pick(&tids),
            _ => 1,
        };
        only = Some(id);
        let flag = rng.below(3);
        match flag {
            0 => args.extend(["-t".into(), id.to_string()]),
            1 => args.push(format!("--thread-id={id}")),
            _ => {
                args.insert(0, id.to_string());
                args.insert(0, "--thread-id".into());
            }
        }
    }
    let out = tools::tool(ctx, "mmview", &args, &dir)?;
    let what = format!("mmview {}", args.join(" "));
    check!(out.ok(), "{what} failed: {}", out.brief());
    let zero = t.evs.iter().filter_map(|e| e.pay.start()).min().unwrap_or(0);
    let mut n = 0u64;
    let text = out.out();
    let mut rest = text.as_str();
    for (i, e) in t.evs.iter().enumerate() {
        if only.map(|o| o != e.tid).unwrap_or(false) {
            continue;
        }
        let us = |v: u64| format!("{} μs", (v - zero) / 1000);
        let pay = match e.pay {
            Pay::Integer(v) => v.to_string(),
            Pay::Instant(v) => us(v),
            Pay::Interval(s, f) => format!("{} - {}", us(s), us(f)),
        };
        let want = format!(
            "{{\n    kind: {},\n    label: {},\n    additional_data: [{}],\n    payload: {pay},\n    thread_id: {},\n}}\n",
            e.kind,
            e.label,
            e.args.join(","),
            e.tid
        );
        match rest.strip_prefix(want.as_str()) {
            Some(r) => rest = r,
            None => {
                let got: String = rest.chars().take(want.chars().count() + 40).collect();
                return viol(format!("{what}: event {i} {} is printed as {} instead of {}", show_ev(e), show(&got), show(&want)));
            }
        }
        n += 1;
    }
    check!(rest.trim().is_empty(), "{what}: more is printed than the {n} events: {}", show(rest));
    check!(std::fs::read(&p).map(|x| x == b).unwrap_or(false), "{what}: the profile was altered");
    ctx.maxc("events_printed_at_once", n);
    ctx.count("events_printed", n);
    ctx.count("runs_with_thread_filter", only.is_some() as u64);
    let mut h = Hasher64::new();
    h.add(t.key());
    h.bytes(args.join("\0").as_bytes());
    ctx.eval(if n >= 2 { Some(h.0) } else { None });
    ctx.sample(|| format!("{what}: {n} of {} events", t.evs.len()));
    Ok(())
}

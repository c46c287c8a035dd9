//! C07: labels and arguments survive the round trip separately.
use super::*;
use measureme::{EventId, EventIdBuilder, Profiler, StringComponent, StringId};

pub fn props() -> Vec<Prop> {
    let mut p = prop("C07", 120000, run, "lists of (label, arguments) that differ and hold at least one event with two or more arguments");
    p.quiet = true;
    vec![p]
}

fn put(p: &Profiler, rng: &mut Rng, s: &str, virt: &mut u64) -> StringId {
    match rng.below(6) {
        0 => {
            let v = StringId::new_virtual(*virt);
            *virt += 1;
            let c = p.alloc_string(s);
            p.map_virtual_to_concrete_string(v, c);
            v
        }
        1 => {
            let mut c = rng.us(s.len() + 1);
            while !s.is_char_boundary(c) {
                c -= 1;
            }
            let a = p.alloc_string(&s[..c]);
            p.alloc_string(&[StringComponent::Ref(a), StringComponent::Value(&s[c..])])
        }
        2 => {
            let a = p.alloc_string(s);
            p.alloc_string(&[StringComponent::Ref(a)])
        }
        _ => p.alloc_string(s),
    }
}

fn bad_text(rng: &mut Rng) -> String {
    if rng.chance(1, 3) {
        return String::new();
    }
    let mut s: Vec<char> = text(rng, Text::Rich, 20).chars().collect();
    // control characters other than white space (and other than the separator and VT)
    let c = loop {
        let c = *rng.pick(&['\0', '\u{1}', '\u{2}', '\u{7}', '\u{8}', '\u{E}', '\u{11}', '\u{1B}', '\u{1C}', '\u{1D}', '\u{1F}', '\u{7F}']);
        break c;
    };
    let i = rng.us(s.len() + 1);
    s.insert(i, c);
    s.into_iter().collect()
}

fn run(ctx: &mut Ctx, idx: u64, rng: &mut Rng) -> R {
    let dir = ctx.dir("c07");
    let stem = dir.join("p");
    let p = match cut("Profiler::new", || Profiler::new(&stem))? {
        Ok(p) => p,
        Err(e) => return viol(format!("Profiler::new failed: {e}")),
    };
    let b = EventIdBuilder::new(&p);
    let k = p.alloc_string("k");
    let mut virt = rng.below(1000);
    let n = rng.range(1, 40);
    // (label, args, label is bad)
    let mut want: Vec<(String, Vec<String>, bool)> = Vec::new();
    let mut h = Hasher64::new();
    let mut nbad = 0;
    let mut multi = 0;
    cut("recording", || {
        for i in 0..n {
            let long = idx % 16 == 7 && rng.chance(1, 10);
            let bad_l = rng.chance(1, 12);
            let label = if bad_l { bad_text(rng) } else { text1(rng, Text::Rich, if long { 400_000 } else { 60 }) };
            let na = match rng.below(8) {
                0 | 1 => 0,
                2 => 1,
                3 => 2,
                4 => rng.range(3, 9),
                5 if rng.chance(1, 4) => rng.range(50, 400),
                _ => rng.below(5),
            };
            let mut args: Vec<String> = (0..na).map(|_| text1(rng, Text::Rich, if long && na < 10 { 100_000 } else { 30 })).collect();
            let mut good = args.len();
            if na > 0 && rng.chance(1, 8) {
                good = rng.us(args.len());
                args[good] = bad_text(rng);
                if rng.chance(1, 3) {
                    let x = rng.us(args.len());
                    if x > good {
                        args[x] = bad_text(rng);
                    }
                }
            }
            h.bytes(label.as_bytes());
            for a in &args {
                h.bytes(a.as_bytes());
                h.add(7);
            }
            if na >= 2 {
                multi += 1;
            }
            let id = if rng.chance(1, 6) {
                // the whole event text in one (possibly virtual or composed) string
                let mut s = label.clone();
                for a in &args {
                    s.push('\x1E');
                    s.push_str(a);
                }
                EventId::from_label(put(&p, rng, &s, &mut virt))
            } else {
                let l = put(&p, rng, &label, &mut virt);
                let ids: Vec<StringId> = args.iter().map(|a| put(&p, rng, a, &mut virt)).collect();
                match ids.len() {
                    0 if rng.chance(1, 2) => b.from_label(l),
                    1 if rng.chance(1, 2) => b.from_label_and_arg(l, ids[0]),
                    _ => b.from_label_and_args(l, &ids),
                }
            };
            match rng.below(3) {
                0 => p.record_instant_event(k, id, i as u32),
                1 => p.record_integer_event(k, id, i as u32, i),
                _ => drop(p.start_recording_interval_event(k, id, i as u32)),
            }
            if bad_l || good < args.len() {
                nbad += 1;
            }
            args.truncate(good);
            want.push((label, args, bad_l));
        }
    })?;
    cut("dropping the profiler", || drop(p))?;
    let pd = open_file(&stem)?;
    let got = read_evs(&pd, pd.metadata().start_time)?;
    check!(got.len() == want.len(), "{} of {} events read", got.len(), want.len());
    for (i, (g, (l, a, bad))) in got.iter().zip(&want).enumerate() {
        check!(g.tid == i as u32 && g.kind == "k", "event {i} reads as {}", show_ev(g));
        if *bad {
            check!(g.label == "<parse error>", "the malformed label {} of event {i} reads as {}", show(l), show(&g.label));
            continue;
        }
        check!(g.label == *l, "event {i}: label {} reads as {}", show(l), show(&g.label));
        check!(g.args == *a, "event {i}: arguments {} read as {}", show(&format!("{a:?}")), show(&format!("{:?}", g.args)));
    }
    ctx.count("events", n);
    ctx.count("malformed_event_texts", nbad);
    ctx.maxc("arguments", want.iter().map(|w| w.1.len() as u64).max().unwrap_or(0));
    ctx.eval(if multi > 0 { Some(h.0) } else { None });
    ctx.sample(|| format!("{n} events, {multi} with several arguments, {nbad} malformed; e.g. {}", show_ev(&got[0])));
    Ok(())
}

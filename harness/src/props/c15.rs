//! C15: collapsed stacks conserve time and name the right stacks.
use super::*;
use crate::enc::{self, Enc, Paging};
use crate::{model, tools};
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![prop("C15", 64000, run, "well-nested traces that differ and hold intervals nested at least two deep")]
}

fn diff(got: &BTreeMap<String, u64>, want: &BTreeMap<String, u64>, what: &str) -> R {
    for (k, v) in want {
        check!(got.get(k) == Some(v), "{what}: stack {} has {:?} instead of {v} ns", show(k), got.get(k));
    }
    for (k, v) in got {
        check!(want.contains_key(k), "{what}: stack {} ({v} ns) does not occur in the trace", show(k));
    }
    Ok(())
}

fn run(ctx: &mut Ctx, idx: u64, rng: &mut Rng) -> R {
    let by_tool = idx % 8 == 0;
    let big = idx % 256 == 5;
    let o = GenOpts {
        max_events: if idx % 2048 == 261 { 90_000 } else if big { 8_000 } else { *rng.pick(&[6, 40, 150]) },
        // (equal moments nest, which would make the stacks too long)
        zero_len: idx % 2048 != 261,
        max_threads: *rng.pick(&[1, 2, 6]),
        max_labels: *rng.pick(&[1, 2, 5, 30]),
        text: if by_tool { Text::Line } else { Text::Rich },
        ..Default::default()
    };
    let t = gen_trace(rng, &o);
    let want = model::stacks(&t.evs);
    let spans: u64 = model::spans(&t.evs).values().map(|(s, e)| e - s).sum();
    assert_eq!(want.values().sum::<u64>(), spans, "model");
    if by_tool {
        let dir = ctx.dir("c15");
        let (e, v) = (*rng.pick(&[Enc::Simple, Enc::Mixed]), *rng.pick(&[8u32, 9, 9]));
        write_file(&dir, "in.mm_profdata", &enc::file(&t, v, e, Paging::Library, rng));
        if rng.chance(1, 3) {
            // leftovers of an earlier, longer run
            write_file(&dir, "out.stacks_folded", &vec![b'z'; 100_000]);
        }
        let o = tools::tool(ctx, "stack_collapse", &["in"], &dir)?;
        check!(o.ok(), "stack_collapse failed: {}", o.brief());
        let text = match std::fs::read(dir.join("out.stacks_folded")).ok().and_then(|b| String::from_utf8(b).ok()) {
            Some(t) => t,
            None => return viol("stack_collapse wrote no readable out.stacks_folded"),
        };
        check!(text.is_empty() || text.ends_with('\n'), "out.stacks_folded does not end in a complete line");
        let mut got = BTreeMap::new();
        for l in text.split_terminator('\n') {
            let (s, n) = match l.rsplit_once(' ').and_then(|(s, n)| n.parse::<u64>().ok().map(|n| (s, n))) {
                Some(x) => x,
                None => return viol(format!("out.stacks_folded has the line {}", show(l))),
            };
            check!(got.insert(s.to_string(), n).is_none(), "out.stacks_folded lists {} twice", show(s));
        }
        got.retain(|_, v| *v != 0);
        diff(&got, &want, "stack_collapse")?;
        ctx.count("tool_outputs_compared", 1);
    } else {
        let pd = cut("building the profile", || super::c13::build(&t.evs))?;
        let got = cut("collapse_stacks", || analyzeme::collapse_stacks(&pd))?;
        let mut got: BTreeMap<String, u64> = got.into_iter().collect();
        check!(got.values().sum::<u64>() == spans, "the stacks add up to {} ns, the threads span {spans} ns", got.values().sum::<u64>());
        got.retain(|_, v| *v != 0);
        diff(&got, &want, "collapse_stacks")?;
    }
    let d = model::depth(&t.evs);
    ctx.maxc("nesting_depth", d);
    ctx.maxc("events_in_a_trace", t.evs.len() as u64);
    ctx.count("events", t.evs.len() as u64);
    ctx.count("stacks", want.len() as u64);
    ctx.eval(if d >= 2 { Some(t.key()) } else { None });
    ctx.sample(|| t.brief());
    Ok(())
}

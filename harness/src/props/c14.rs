//! C14: the summary accounts for every event and every nanosecond.
use super::*;
use crate::enc::{self, Enc, Paging};
use crate::model;
use analyzeme::AnalysisResults;

pub fn props() -> Vec<Prop> {
    vec![prop("C14", 200000, run, "well-nested traces that differ and hold at least two intervals, one inside the other")]
}

pub fn ns(d: Duration) -> u64 {
    d.as_nanos() as u64
}

/// Compares an analysis with the model.
pub fn same_analysis(a: &AnalysisResults, m: &model::Analysis) -> R {
    let mut seen = std::collections::BTreeSet::new();
    for q in &a.query_data {
        check!(seen.insert(q.label.clone()), "label {} is listed twice", show(&q.label));
        let got = model::Stat {
            time: ns(q.time),
            self_time: ns(q.self_time),
            misses: q.number_of_cache_misses as u64,
            hits: q.number_of_cache_hits as u64,
            count: q.invocation_count as u64,
            blocked: ns(q.blocked_time),
            load: ns(q.incremental_load_time),
            hashing: ns(q.incremental_hashing_time),
        };
        match m.stats.get(&q.label) {
            Some(w) => check!(&got == w, "label {}: {got:?} instead of {w:?}", show(&q.label)),
            None => return viol(format!("label {} is not in the trace: {got:?}", show(&q.label))),
        }
    }
    for l in m.stats.keys() {
        check!(seen.contains(l), "label {} is missing", show(l));
    }
    let mut arts = std::collections::BTreeMap::new();
    for s in &a.artifact_sizes {
        check!(arts.insert(s.label.clone(), s.value).is_none(), "artifact {} is listed twice", show(&s.label));
    }
    check!(arts == m.artifacts, "artifact sizes {} instead of {}", clip(&format!("{arts:?}"), 300), clip(&format!("{:?}", m.artifacts), 300));
    check!(ns(a.total_time) == m.total, "total time {} instead of {}", ns(a.total_time), m.total);
    Ok(())
}

fn run(ctx: &mut Ctx, idx: u64, rng: &mut Rng) -> R {
    let big = idx % 512 == 5;
    let mut o = GenOpts {
        max_events: if idx % 4096 == 517 { 90_000 } else if big { 20_000 } else { *rng.pick(&[6, 30, 120]) },
        max_threads: if big { 40 } else { *rng.pick(&[1, 2, 5, 9]) },
        max_labels: *rng.pick(&[1, 3, 12, 60]),
        kinds_text: rng.chance(1, 3),
        ..Default::default()
    };
    if rng.chance(1, 3) {
        o.instants = false;
        o.integers = false;
    }
    let t = gen_trace(rng, &o);
    let m = model::analyze(&t.evs);
    let pd = if rng.chance(1, 3) {
        let (e, p) = (*rng.pick(&[Enc::Simple, Enc::Mixed]), *rng.pick(&[Paging::Single, Paging::Library, Paging::Random]));
        open_bytes(enc::file(&t, 9, e, p, rng))?
    } else {
        cut("building the profile", || super::c13::build(&t.evs))?
    };
    let a = cut("perform_analysis", || pd.perform_analysis())?;
    same_analysis(&a, &m)?;
    let own: u64 = a.query_data.iter().map(|q| ns(q.self_time)).sum();
    check!(own == m.top, "the self times add up to {own}, the top-level intervals to {}", m.top);
    // the model conserves time by itself
    assert_eq!(m.stats.values().map(|s| s.self_time).sum::<u64>(), m.top);
    let d = model::depth(&t.evs);
    ctx.maxc("nesting_depth", d);
    ctx.count("events", t.evs.len() as u64);
    ctx.count("labels", m.stats.len() as u64);
    ctx.count("threads", model::spans(&t.evs).len() as u64);
    ctx.maxc("events_in_a_trace", t.evs.len() as u64);
    ctx.eval(if d >= 2 { Some(t.key()) } else { None });
    ctx.sample(|| t.brief());
    Ok(())
}

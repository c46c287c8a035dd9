//! C18: summarize aggregate reports the true extremes across runs.
use super::*;
use crate::enc::{self, Enc, Paging};
use crate::tools;
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![prop("C18", 24000, run, "sets of at least two profiles of one event sequence with at least four boundaries, and refused sets")]
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum W {
    Start,
    End,
    Inst,
}

#[derive(Clone, PartialEq, Debug)]
struct What {
    kind: String,
    label: String,
    args: Vec<String>,
}

/// A sequence of event boundaries (of properly nested events of one thread).
#[derive(Clone, PartialEq)]
struct Word {
    evs: Vec<What>,
    parent: Vec<Option<usize>>,
    pts: Vec<(W, usize)>,
}

fn word(rng: &mut Rng, n: usize) -> Word {
    let nl = rng.range(1, 6);
    let pool: Vec<What> = (0..nl)
        .map(|_| What {
            kind: match rng.below(4) {
                0 => "Query".into(),
                1 => "GenericActivity".into(),
                2 => rng.pick(&["QueryBlocked", "IncrementalLoadResult", "QueryCacheHit", "IncrementalResultHashing", "ArtifactSize"]).to_string(),
                _ => text1(rng, Text::Line, 12),
            },
            label: text1(rng, Text::Line, 20),
            args: (0..rng.below(3)).map(|_| text1(rng, Text::Line, 9)).collect(),
        })
        .collect();
    let mut w = Word { evs: vec![], parent: vec![], pts: vec![] };
    let mut stack: Vec<usize> = vec![];
    let deep = rng.range(1, 4);
    while w.evs.len() < n || !stack.is_empty() {
        let open = w.evs.len() < n;
        let close = !stack.is_empty() && (!open || rng.chance(1, deep + 1));
        if close {
            w.pts.push((W::End, stack.pop().unwrap()));
        } else {
            let i = w.evs.len();
            w.evs.push(rng.pick(&pool).clone());
            w.parent.push(stack.last().copied());
            if rng.chance(1, 4) {
                w.pts.push((W::Inst, i));
            } else {
                w.pts.push((W::Start, i));
                stack.push(i);
            }
        }
    }
    w
}

fn trace(w: &Word, times: &[u64], tid: u32, rng: &mut Rng) -> Trace {
    let mut starts = vec![0u64; w.evs.len()];
    let mut evs: Vec<Ev> = vec![];
    for (i, (k, e)) in w.pts.iter().enumerate() {
        let x = &w.evs[*e];
        let pay = match k {
            W::Start => {
                starts[*e] = times[i];
                continue;
            }
            W::End => Pay::Interval(starts[*e], times[i]),
            W::Inst => Pay::Instant(times[i]),
        };
        if rng.chance(1, 15) {
            evs.push(Ev { kind: "ArtifactSize".into(), label: "size".into(), args: vec![], tid, pay: Pay::Integer(rng.below(1000)) });
        }
        evs.push(Ev { kind: x.kind.clone(), label: x.label.clone(), args: x.args.clone(), tid, pay });
    }
    gen_meta(rng, evs, Text::Plain)
}

fn disp(x: &What) -> String {
    let k = match x.kind.as_str() {
        "Query" | "GenericActivity" => String::new(),
        k => format!("{k} "),
    };
    format!("{k}`{}({})`", x.label, x.args.join(", "))
}

/// The place between two consecutive boundaries.
fn place(w: &Word, i: usize) -> String {
    let (a, x) = w.pts[i];
    let (b, y) = w.pts[i + 1];
    let d = |e: usize| disp(&w.evs[e]);
    match (a, b) {
        (W::Start, W::End) => d(x),
        (W::Start, _) => format!("in {}, before {}", d(x), d(y)),
        (_, W::End) => format!("in {}, after {}", d(y), d(x)),
        _ => match w.parent[x] {
            Some(p) => format!("in {},\n    between {}\n        and {}\n", d(p), d(x), d(y)),
            None => format!("between {} and {}", d(x), d(y)),
        },
    }
}

/// The lines expected for the ten most extreme values, in increasing order.
fn section(vals: &[u64], places: &[String], largest: bool, show: impl Fn(u64) -> String) -> (usize, Vec<Vec<String>>) {
    let mut m: BTreeMap<u64, Vec<usize>> = BTreeMap::new();
    for (i, v) in vals.iter().enumerate() {
        m.entry(*v).or_default().push(i);
    }
    let mut keys: Vec<u64> = m.keys().copied().collect();
    if largest {
        keys.reverse();
    }
    keys.truncate(10);
    keys.sort();
    let entries = keys
        .iter()
        .map(|k| {
            let at = &m[k];
            let p = if at.len() == 1 {
                places[at[0]].clone()
            } else {
                format!("{} occurrences, or {:.2}%", at.len(), at.len() as f64 / vals.len() as f64 * 100.0)
            };
            format!("  {} ns: {p}", show(*k)).split('\n').map(|s| s.to_string()).collect()
        })
        .collect();
    (keys.len(), entries)
}

fn same_line(got: &str, want: &str) -> bool {
    if got == want {
        return true;
    }
    match (got.rsplit_once(", or "), want.rsplit_once(", or ")) {
        (Some((a, p)), Some((b, q))) if a == b => match (p.strip_suffix('%'), q.strip_suffix('%')) {
            (Some(p), Some(q)) => matches!((p.parse::<f64>(), q.parse::<f64>()), (Ok(x), Ok(y)) if (x - y).abs() < 0.0101),
            _ => false,
        },
        _ => false,
    }
}

fn run(ctx: &mut Ctx, _idx: u64, rng: &mut Rng) -> R {
    let n = *rng.pick(&[1, 2, 3, 6, 15, 60]);
    let n = 1 + rng.us(n);
    let mut w = word(rng, n);
    if w.pts.len() < 2 {
        w = Word { evs: vec![w.evs[0].clone()], parent: vec![None], pts: vec![(W::Start, 0), (W::End, 0)] };
    }
    let k = *rng.pick(&[1u64, 2, 2, 3, 5, 8]);
    let gaps: Vec<u64> = match rng.below(4) {
        0 => (1..=4).collect(),
        1 => (1..=40).collect(),
        2 => vec![1, 10, 1000, 1_000_000, 3_000_000_000],
        _ => (0..30).map(|_| 1 + rng.logsize(1 << 32)).collect(),
    };
    let jit = *rng.pick(&[0u64, 1, 3, 30, 100_000]);
    let base: Vec<u64> = w.pts.iter().map(|_| *rng.pick(&gaps)).collect();
    let m = w.pts.len() - 1;
    let (mut lo, mut hi) = (vec![u64::MAX; m], vec![0u64; m]);
    let dir = ctx.dir("c18");
    // how the set is to be spoilt, if at all
    let spoil = if rng.chance(1, 4) { Some(rng.below(if k > 1 { 8 } else { 1 })) } else { None };
    let victim = if spoil == Some(0) { rng.below(k) } else if k > 1 { rng.range(0, k - 1) } else { 0 };
    let mut done = None;
    let mut files = vec![];
    for r in 0..k {
        let tid = if rng.chance(1, 3) { rng.below(1 << 20) as u32 } else { 7 };
        let mut v = w.clone();
        if spoil.is_some() && spoil != Some(0) && r == victim {
            done = spoil_word(&mut v, spoil.unwrap(), rng);
        }
        let mut times = vec![rng.logsize(1 << 20)];
        for i in 0..v.pts.len() - 1 {
            let mut g = base[i % base.len()] + if jit > 0 { rng.below(jit + 1) } else { 0 };
            // an interval of no duration at all is unambiguous only if nothing is in it
            if (v.pts[i].0 == W::Start && v.pts[i + 1].0 == W::End || v.pts[i].0 == W::Inst && v.pts[i + 1].0 == W::Inst) && rng.chance(1, 4) {
                g = 0;
            }
            times.push(times[i] + g);
            if i < m {
                lo[i] = lo[i].min(g);
                hi[i] = hi[i].max(g);
            }
        }
        let mut t = trace(&v, &times, tid, rng);
        if spoil == Some(0) && r == victim {
            // a second thread
            let c: Vec<usize> = (0..t.evs.len()).filter(|i| !matches!(t.evs[*i].pay, Pay::Integer(_))).collect();
            if c.len() >= 2 {
                let i = *rng.pick(&c);
                t.evs[i].tid ^= 1 + rng.below(8) as u32;
                done = Some("two threads");
            }
        }
        let ver = *rng.pick(&[8u32, 9, 9]);
        let name = format!("p{r}");
        write_file(&dir, &format!("{name}.mm_profdata"), &enc::file(&t, ver, Enc::Mixed, Paging::Library, rng));
        files.push(name);
    }
    let mut args = vec!["aggregate".to_string()];
    if done.is_some() {
        rng.shuffle(&mut files);
    }
    args.extend(files);
    let out = tools::tool(ctx, "summarize", &args, &dir)?;
    let what = format!("summarize aggregate of {k} profiles of {} boundaries", w.pts.len());
    let mut h = Hasher64::new();
    h.add(w.pts.len() as u64 ^ k << 32);
    for v in lo.iter().chain(&hi) {
        h.add(*v);
    }
    for e in &w.evs {
        h.bytes(e.label.as_bytes());
    }
    if let Some(d) = done {
        check!(!out.ok() && out.signal.is_none(), "{what}: accepted although the profiles differ ({d}): {}", out.brief());
        ctx.count("refused_sets", 1);
        h.bytes(d.as_bytes());
        ctx.eval(Some(h.0));
        return Ok(());
    }
    check!(out.ok(), "{what} failed: {}", out.brief());
    let places: Vec<String> = (0..m).map(|i| place(&w, i)).collect();
    let spread: Vec<u64> = (0..m).map(|i| hi[i] - lo[i]).collect();
    let half = |v: u64| format!("±{}", v as f64 / 2.0);
    let want = [
        ("Smallest", "durations", section(&lo, &places, false, |v| v.to_string())),
        ("Largest", "durations", section(&hi, &places, true, |v| v.to_string())),
        ("Smallest", "variances", section(&spread, &places, false, half)),
        ("Largest", "variances", section(&spread, &places, true, half)),
    ];
    let text = out.out();
    // only \n ends a line: labels may hold other line separators
    let mut lines = text.split('\n').filter(|l| !l.is_empty()).peekable();
    let mut shown = 0;
    for (a, b, (n, entries)) in &want {
        let head = format!("{a} {n} {b}:");
        check!(lines.peek() == Some(&head.as_str()), "{what}: {:?} instead of {head:?} in {}", lines.peek(), show(&text));
        lines.next();
        for e in entries {
            for l in e.iter().filter(|l| !l.is_empty()) {
                let got = lines.next().unwrap_or("");
                check!(same_line(got, l), "{what}: {a} {b}: line {} instead of {}", show(got), show(l));
            }
            shown += 1;
        }
    }
    check!(lines.next().is_none(), "{what}: more output than expected: {}", show(&text));
    ctx.count("profiles", k);
    ctx.count("boundaries", w.pts.len() as u64);
    ctx.count("extremes_compared", shown);
    let distinct: BTreeSet<u64> = lo.iter().copied().collect();
    ctx.maxc("distinct_minima", distinct.len() as u64);
    ctx.count("sets_with_more_than_ten_minima", (distinct.len() > 10) as u64);
    ctx.eval(if k >= 2 && m >= 3 { Some(h.0) } else { None });
    ctx.sample(|| what.clone());
    Ok(())
}

/// Changes the event sequence; says how, or None if it stayed the same.
fn spoil_word(w: &mut Word, how: u64, rng: &mut Rng) -> Option<&'static str> {
    let before = w.clone();
    let e = rng.us(w.evs.len());
    let r = match how {
        1 => {
            w.evs[e].label.push('x');
            "another label"
        }
        2 => {
            w.evs[e].kind = if w.evs[e].kind == "Query" { "GenericActivity".into() } else { "Query".into() };
            "another kind"
        }
        3 => {
            if w.evs[e].args.is_empty() {
                w.evs[e].args.push("x".into());
            } else {
                w.evs[e].args.pop();
            }
            "other arguments"
        }
        4 => {
            // one event more, at the front or the end
            w.evs.push(What { kind: "Query".into(), label: "more".into(), args: vec![] });
            w.parent.push(None);
            let i = w.evs.len() - 1;
            let p = if rng.chance(1, 2) { 0 } else { w.pts.len() };
            w.pts.insert(p, (W::Inst, i));
            "one more event"
        }
        5 => {
            // an interval becomes an instant
            let at = (0..w.pts.len() - 1).find(|i| w.pts[*i].0 == W::Start && w.pts[*i + 1] == (W::End, w.pts[*i].1))?;
            if w.pts.len() <= 2 {
                return None;
            }
            w.pts.remove(at + 1);
            w.pts[at].0 = W::Inst;
            "instant instead of interval"
        }
        6 => {
            // one event less
            let at = (0..w.pts.len()).find(|i| w.pts[*i].0 == W::Inst)?;
            if w.pts.len() <= 2 {
                return None;
            }
            w.pts.remove(at);
            "one event less"
        }
        _ => {
            // the end of an interval moves past its successor
            let at = (0..w.pts.len() - 1).find(|i| w.pts[*i].0 == W::End && w.pts[*i + 1].0 == W::Inst)?;
            let p = w.pts[at].1;
            w.pts.swap(at, at + 1);
            let q = w.pts[at].1;
            w.parent[q] = Some(p);
            "other nesting"
        }
    };
    if before == *w {
        None
    } else {
        Some(r)
    }
}

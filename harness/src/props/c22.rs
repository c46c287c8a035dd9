//! C22: the flame graph shows every stack with its inclusive time.
use super::c16::table_text;
use super::*;
use crate::enc::{self, Enc, Paging};
use crate::{model, tools};
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![prop("C22", 9000, run, "profiles that differ and whose flame graph has at least three frames below the root")]
}

fn label(rng: &mut Rng) -> String {
    loop {
        let s = table_text(rng);
        // what a line of folded stacks cannot tell apart from its own syntax
        let num = s.rsplit_once(' ').map(|(_, n)| n.chars().all(|c| c.is_ascii_digit() || c == '.')).unwrap_or(false);
        if !num && !s.contains(';') && !s.contains("_[") && s.trim() == s && !s.is_empty() {
            return s;
        }
    }
}

struct Frame {
    name: String,
    samples: u64,
    pct: String,
    x: u64,
    w: u64,
    y: i64,
}

fn attr<'a>(s: &'a str, k: &str) -> Option<&'a str> {
    let i = s.find(&format!(" {k}=\""))? + k.len() + 3;
    s[i..].split('"').next()
}

fn unescape(s: &str) -> String {
    s.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&apos;", "'").replace("&#39;", "'").replace("&amp;", "&")
}

fn frames(svg: &str) -> Option<Vec<Frame>> {
    let i = svg.find("id=\"frames\"")?;
    let mut v = vec![];
    for part in svg[i..].split("<title>").skip(1) {
        let (title, rest) = part.split_once("</title>")?;
        let rect = rest.split("<rect").nth(1)?.split("/>").next()?;
        let title = unescape(title);
        // "name (1,234 samples, 5.67%)"
        let (name, nums) = title.strip_suffix("%)")?.rsplit_once(" (")?;
        let (n, pct) = nums.split_once(" samples, ")?;
        v.push(Frame {
            name: name.into(),
            samples: n.replace(',', "").parse().ok()?,
            pct: pct.into(),
            x: attr(rect, "fg:x")?.parse().ok()?,
            w: attr(rect, "fg:w")?.parse().ok()?,
            y: attr(rect, "y")?.parse().ok()?,
        });
    }
    Some(v)
}

fn run(ctx: &mut Ctx, _idx: u64, rng: &mut Rng) -> R {
    let o = GenOpts {
        max_events: *rng.pick(&[6, 40, 150]),
        max_threads: *rng.pick(&[1, 2, 6]),
        max_labels: *rng.pick(&[2, 5, 12]),
        text: Text::Plain,
        ..Default::default()
    };
    let mut t = gen_trace(rng, &o);
    let mut map: BTreeMap<String, String> = BTreeMap::new();
    let mut used: Vec<String> = vec![];
    for e in &mut t.evs {
        if !map.contains_key(&e.label) {
            let mut s = if !used.is_empty() && rng.chance(1, 3) { format!("{}{}", rng.pick(&used), rng.pick(&["2", "::new", "_x", "é", "<T>", " b", "-"])) } else { label(rng) };
            while used.contains(&s) {
                s.push('x');
            }
            used.push(s.clone());
            map.insert(e.label.clone(), s);
        }
        e.label = map[&e.label].clone();
    }
    // inclusive time per call path
    let mut want: BTreeMap<String, u64> = BTreeMap::new();
    for (s, v) in model::stacks(&t.evs) {
        let mut p = String::new();
        for c in s.split(';') {
            if !p.is_empty() {
                p.push(';');
            }
            p.push_str(c);
            *want.entry(p.clone()).or_default() += v;
        }
    }
    let total: u64 = model::spans(&t.evs).values().map(|(s, e)| e - s).sum();
    if total == 0 {
        return Ok(()); // nothing to draw
    }
    let dir = ctx.dir("c22");
    write_file(&dir, "in.mm_profdata", &enc::file(&t, *rng.pick(&[8u32, 9, 9]), Enc::Mixed, Paging::Library, rng));
    if rng.chance(1, 4) {
        write_file(&dir, "rustc.svg", &vec![b'<'; 300_000]);
    }
    let out = tools::tool(ctx, "flamegraph", &[if rng.chance(1, 2) { "in" } else { "in.mm_profdata" }], &dir)?;
    check!(out.ok(), "flamegraph failed: {}", out.brief());
    let svg = std::fs::read(dir.join("rustc.svg")).ok().and_then(|b| String::from_utf8(b).ok()).unwrap_or_default();
    check!(svg.trim_end().ends_with("</svg>") && svg.starts_with("<?xml"), "rustc.svg is no complete SVG document: {}", show(&svg[svg.len().saturating_sub(200)..]));
    let Some(fs) = frames(&svg) else { return viol("rustc.svg holds a frame that cannot be read".to_string()) };
    check!(!fs.is_empty(), "rustc.svg holds no frames");
    let ys: BTreeSet<i64> = fs.iter().map(|f| -f.y).collect();
    let depth: BTreeMap<i64, usize> = ys.iter().enumerate().map(|(i, y)| (-*y, i)).collect();
    let mut levels: Vec<Vec<&Frame>> = vec![vec![]; depth.len()];
    for f in &fs {
        levels[depth[&f.y]].push(f);
    }
    for (d, l) in levels.iter_mut().enumerate() {
        l.sort_by_key(|f| f.x);
        for w in l.windows(2) {
            check!(w[0].x + w[0].w <= w[1].x, "frames {} and {} at depth {d} overlap", show(&w[0].name), show(&w[1].name));
        }
    }
    let all = &levels[0];
    check!(all.len() == 1 && all[0].samples == total && all[0].w == total, "the root frame is {:?} with {} of {total} ns", all.iter().map(|f| &f.name).collect::<Vec<_>>(), all[0].samples);
    // the call path of each frame, from the frames below it
    let mut paths: Vec<Vec<String>> = vec![vec![String::new()]];
    let mut seen: BTreeMap<String, u64> = BTreeMap::new();
    for d in 1..levels.len() {
        let mut here = vec![];
        for f in &levels[d] {
            let par = levels[d - 1].iter().position(|p| p.x <= f.x && f.x + f.w <= p.x + p.w);
            let Some(par) = par else { return viol(format!("frame {} at depth {d} is not within any caller", show(&f.name))) };
            let p = &paths[d - 1][par];
            let path = if p.is_empty() { f.name.clone() } else { format!("{p};{}", f.name) };
            let Some(w) = want.get(&path) else { return viol(format!("the frame {} is no call path of the profile", show(&path))) };
            check!(seen.insert(path.clone(), f.w).is_none(), "call path {} appears as several frames", show(&path));
            check!(f.w == *w && f.samples == *w, "the frame of {} shows {} ns (drawn as {}) instead of {w}", show(&path), f.samples, f.w);
            let pct = *w as f64 / total as f64 * 100.0;
            check!(super::c16::pct_close(&f.pct, pct, 2), "the frame of {} shows {}% instead of {pct}%", show(&path), f.pct);
            here.push(path);
        }
        paths.push(here);
    }
    for (p, w) in &want {
        let wide = *w as f64 >= total as f64 * 0.000101;
        check!(!wide || seen.contains_key(p), "call path {} with {w} of {total} ns does not appear", show(p));
        ctx.count("frames_too_narrow", !wide as u64);
    }
    ctx.count("frames", fs.len() as u64);
    ctx.maxc("depth", levels.len() as u64);
    ctx.eval(if fs.len() >= 4 { Some(t.key()) } else { None });
    ctx.sample(|| format!("{} frames, {total} ns; {}", fs.len(), t.brief()));
    Ok(())
}

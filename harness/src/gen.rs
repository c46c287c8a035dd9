//! Generators of texts and traces.
use crate::core::*;
use std::collections::BTreeMap;

pub const MAX_INTERVAL: u64 = (1 << 48) - 3;
pub const MAX_SINGLE: u64 = (1 << 48) - 1;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Text {
    /// ASCII identifier-like, safe in tables and stack lines
    Plain,
    /// Any Unicode without ASCII control characters except white space (no VT)
    Rich,
    /// Like Rich, but no line breaks / tabs / semicolons
    Line,
    /// Any Unicode scalar values at all
    Any,
}

const RICH: &[char] = &[
    'a', 'b', 'Z', '0', '9', ' ', '\t', '\n', '\r', '\x0C', '"', '\'', '\\', '/', '{', '}', '[',
    ']', ',', ':', ';', '<', '>', '&', '%', '$', '|', '+', '-', '_', '.', '(', ')', '!', '#', '=',
    'é', 'ß', 'μ', '→', '漢', '字', '\u{80}', '\u{7FF}', '\u{800}', '\u{FFFF}', '\u{10000}',
    '\u{10FFFF}', '😀', '\u{FEFF}', '\u{301}', '\u{200D}', '\u{2028}', 'ÿ', 'þ', '\u{FE}', '\u{FF}',
    '\u{D7FF}', '\u{E000}', '\u{A0}', '\u{3BF}',
];
const ANY_EXTRA: &[char] = &[
    '\0', '\u{1}', '\u{7}', '\u{8}', '\u{B}', '\u{11}', '\u{1B}', '\u{1D}', '\u{1E}', '\u{1F}', '\u{7F}',
];
const PLAIN: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";

pub fn ch(rng: &mut Rng, t: Text) -> char {
    loop {
        let c = match t {
            Text::Plain => *rng.pick(PLAIN) as char,
            Text::Any if rng.chance(1, 6) => *rng.pick(ANY_EXTRA),
            _ => match rng.below(8) {
                0..=3 => (0x20 + rng.below(0x5F) as u8) as char,
                4..=6 => *rng.pick(RICH),
                _ => match char::from_u32(rng.below(0x110000) as u32) {
                    Some(c) => c,
                    None => continue,
                },
            },
        };
        match t {
            Text::Any => return c,
            Text::Plain => return c,
            _ => {
                if c.is_ascii_control() && !c.is_ascii_whitespace() {
                    continue;
                }
                if c == '\u{B}' {
                    continue;
                }
                if t == Text::Line && (c == '\n' || c == '\r' || c == '\t' || c == '\x0C' || c == ';' || c == '\u{2028}' || c == '\u{2029}' || c == '\u{85}') {
                    continue;
                }
                return c;
            }
        }
    }
}

/// Text of (about) `n` bytes.
pub fn text_len(rng: &mut Rng, t: Text, n: usize) -> String {
    let mut s = String::with_capacity(n + 4);
    if n > 400 {
        // a repeated random block: cheap, still position-dependent thanks to the prefix counter
        let block = text_len(rng, t, 61);
        let mut i = 0u64;
        while s.len() < n {
            s.push_str(&block);
            if t != Text::Plain && rng.chance(1, 3) {
                s.push(ch(rng, t));
            }
            s.push_str(&i.to_string());
            i += 1;
        }
        let mut e = n.max(1);
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        s.truncate(e);
        while s.len() < n {
            s.push('x');
        }
        return s;
    }
    while s.len() < n {
        let c = ch(rng, t);
        if s.len() + c.len_utf8() <= n {
            s.push(c);
        } else {
            s.push('x');
        }
    }
    s
}

pub fn text(rng: &mut Rng, t: Text, max: u64) -> String {
    let n = rng.logsize(max) as usize;
    text_len(rng, t, n)
}

pub fn text1(rng: &mut Rng, t: Text, max: u64) -> String {
    loop {
        let s = text(rng, t, max.max(1));
        if !s.is_empty() {
            return s;
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Pay {
    Interval(u64, u64),
    Instant(u64),
    Integer(u64),
}

impl Pay {
    pub fn start(&self) -> Option<u64> {
        match *self {
            Pay::Interval(s, _) => Some(s),
            Pay::Instant(t) => Some(t),
            Pay::Integer(_) => None,
        }
    }
    pub fn end(&self) -> Option<u64> {
        match *self {
            Pay::Interval(_, e) => Some(e),
            Pay::Instant(t) => Some(t),
            Pay::Integer(_) => None,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Ev {
    pub kind: String,
    pub label: String,
    pub args: Vec<String>,
    pub tid: u32,
    pub pay: Pay,
}

#[derive(Clone, Debug)]
pub struct Trace {
    pub evs: Vec<Ev>,
    pub start_ns: u64,
    pub pid: u32,
    pub cmd: String,
}

impl Trace {
    pub fn key(&self) -> u64 {
        let mut h = Hasher64::new();
        for e in &self.evs {
            h.bytes(e.kind.as_bytes());
            h.bytes(e.label.as_bytes());
            for a in &e.args {
                h.bytes(a.as_bytes());
            }
            h.add(e.tid as u64);
            match e.pay {
                Pay::Interval(s, t) => {
                    h.add(1);
                    h.add(s);
                    h.add(t)
                }
                Pay::Instant(t) => {
                    h.add(2);
                    h.add(t)
                }
                Pay::Integer(t) => {
                    h.add(3);
                    h.add(t)
                }
            }
        }
        h.0
    }
    pub fn brief(&self) -> String {
        let mut s = format!("{} events: ", self.evs.len());
        for e in self.evs.iter().take(4) {
            s.push_str(&format!(
                "[{} {} {:?} t{} {:?}] ",
                clip(&e.kind, 20),
                show(&e.label),
                e.args.iter().map(|a| clip(a, 20)).collect::<Vec<_>>(),
                e.tid,
                e.pay
            ));
        }
        s
    }
}

pub const KINDS: &[&str] = &[
    "Query",
    "GenericActivity",
    "IncrementalLoadResult",
    "IncrementalResultHashing",
    "QueryBlocked",
    "QueryCacheHit",
    "ArtifactSize",
    "Custom",
    "query",
];

#[derive(Clone, Debug)]
pub struct GenOpts {
    pub max_events: u64,
    pub max_threads: u64,
    pub text: Text,
    pub max_label: u64,
    pub max_args: u64,
    pub max_labels: u64,
    pub instants: bool,
    pub integers: bool,
    pub zero_len: bool,
    pub kinds_text: bool,
    pub small_tids: bool,
    /// total time horizon is at most this
    pub horizon: u64,
}

impl Default for GenOpts {
    fn default() -> Self {
        GenOpts {
            max_events: 60,
            max_threads: 5,
            text: Text::Rich,
            max_label: 40,
            max_args: 4,
            max_labels: 12,
            instants: true,
            integers: true,
            zero_len: true,
            kinds_text: false,
            small_tids: false,
            horizon: MAX_INTERVAL,
        }
    }
}

struct TG<'a> {
    o: &'a GenOpts,
    labels: Vec<(String, Vec<String>)>,
    kinds: Vec<String>,
    budget: u64,
    out: Vec<Ev>,
    tid: u32,
}

impl<'a> TG<'a> {
    fn lab(&mut self, rng: &mut Rng) -> (String, String, Vec<String>) {
        let (l, a) = rng.pick(&self.labels).clone();
        (rng.pick(&self.kinds).clone(), l, a)
    }
    fn interval(&mut self, rng: &mut Rng, lo: u64, hi: u64, depth: u32) {
        if self.budget == 0 {
            return;
        }
        self.budget -= 1;
        let (kind, label, args) = self.lab(rng);
        if depth < 40 {
            self.fill(rng, lo, hi, depth + 1);
        }
        let kind = if kind == "QueryCacheHit" && rng.chance(1, 2) { "Query".to_string() } else { kind };
        self.out.push(Ev { kind, label, args, tid: self.tid, pay: Pay::Interval(lo, hi) });
    }
    /// A call stack of up to `depth` levels, with siblings here and there.
    fn chain(&mut self, rng: &mut Rng, mut lo: u64, mut hi: u64, depth: u64) {
        let mut open = Vec::new();
        for _ in 0..depth {
            if lo >= hi || self.budget == 0 {
                break;
            }
            self.budget -= 1;
            open.push((lo, hi, self.lab(rng)));
            let step = (hi - lo) / (2 * depth);
            lo += rng.below(step + 1);
            hi -= rng.below(step + 1);
        }
        let mut last = None;
        for (s, e, (kind, label, args)) in open.into_iter().rev() {
            if let Some(l) = last {
                if l < e && self.budget > 0 && rng.chance(1, 6) {
                    self.interval(rng, l, e, 39);
                }
            }
            let kind = if kind == "QueryCacheHit" { "Query".to_string() } else { kind };
            self.out.push(Ev { kind, label, args, tid: self.tid, pay: Pay::Interval(s, e) });
            last = Some(e);
        }
    }
    /// Emits children within [lo, hi].
    fn fill(&mut self, rng: &mut Rng, lo: u64, hi: u64, depth: u32) {
        let n = match rng.below(10) {
            0..=3 => 0,
            4..=6 => 1,
            7 => 2,
            8 => 3,
            _ => rng.range(2, 7),
        };
        let n = if depth == 0 { n.max(1) } else { n };
        let mut pts: Vec<u64> = Vec::new();
        for _ in 0..2 * n {
            let p = match rng.below(8) {
                0 => lo,
                1 => hi,
                2 if !pts.is_empty() => *rng.pick(&pts),
                _ => rng.range(lo, hi),
            };
            pts.push(p);
        }
        pts.sort();
        let mut t = lo;
        for i in 0..n as usize {
            let (s, e) = (pts[2 * i], pts[2 * i + 1]);
            if s == e && !self.o.zero_len {
                continue;
            }
            self.points(rng, t, s);
            if s == e {
                // zero-length: leaf only
                if self.budget > 0 {
                    self.budget -= 1;
                    let (kind, label, args) = self.lab(rng);
                    self.out.push(Ev { kind, label, args, tid: self.tid, pay: Pay::Interval(s, e) });
                }
            } else {
                self.interval(rng, s, e, depth);
            }
            t = e;
        }
        self.points(rng, t, hi);
    }
    fn points(&mut self, rng: &mut Rng, lo: u64, hi: u64) {
        if !rng.chance(1, 4) {
            return;
        }
        let mut ts: Vec<u64> = (0..rng.range(1, 3)).map(|_| rng.range(lo, hi)).collect();
        ts.sort();
        for t in ts {
            if self.budget == 0 {
                return;
            }
            if self.o.instants && rng.chance(2, 3) {
                self.budget -= 1;
                let (kind, label, args) = self.lab(rng);
                let kind = if rng.chance(1, 2) { "QueryCacheHit".into() } else { kind };
                self.out.push(Ev { kind, label, args, tid: self.tid, pay: Pay::Instant(t) });
            } else if self.o.integers {
                self.budget -= 1;
                let (kind, label, args) = self.lab(rng);
                let kind = if rng.chance(1, 2) { "ArtifactSize".into() } else { kind };
                let v = rng.logsize(1 << 40);
                self.out.push(Ev { kind, label, args, tid: self.tid, pay: Pay::Integer(v) });
            }
        }
    }
}

pub fn gen_tids(rng: &mut Rng, n: u64, small: bool) -> Vec<u32> {
    let mut tids: Vec<u32> = Vec::new();
    while (tids.len() as u64) < n {
        let t = if small || rng.chance(1, 2) {
            rng.below(n * 2) as u32
        } else {
            *rng.pick(&[0, 1, 255, 256, 65535, 65536, u32::MAX, u32::MAX - 1, 1 << 31, rng.clone().next() as u32])
        };
        let _ = rng.next();
        if !tids.contains(&t) {
            tids.push(t);
        }
    }
    tids
}

/// A well-nested trace; per thread, intervals appear in end order, as a recorder emits them.
pub fn gen_trace(rng: &mut Rng, o: &GenOpts) -> Trace {
    // now and then a trace that is deep, or has many threads or labels
    let (mut deep, mut many_threads, mut many_labels) = (0, false, false);
    if o.max_events >= 30 && rng.chance(1, 25) {
        match rng.below(3) {
            0 => deep = rng.range(30, 700),
            1 => many_threads = o.max_threads >= 5,
            _ => many_labels = true,
        }
    }
    // now and then long texts
    let wordy = deep == 0 && !many_labels && o.max_label >= 40 && rng.chance(1, 14);
    let nlab = if many_labels { if rng.chance(1, 3) { rng.range(1000, 3000) } else { rng.range(200, 500) } } else { rng.range(1, o.max_labels) };
    let mut labels: Vec<(String, Vec<String>)> = Vec::new();
    for _ in 0..nlab {
        let l = if !labels.is_empty() && rng.chance(1, 8) {
            labels[rng.us(labels.len())].0.clone()
        } else {
            let mx = if wordy && rng.chance(1, 2) {
                *rng.pick(&[100, 300, 3000])
            } else if rng.chance(3, 4) {
                o.max_label.min(10)
            } else {
                o.max_label
            };
            text1(rng, o.text, mx)
        };
        let na = if rng.chance(1, 2) { 0 } else { rng.below(o.max_args + 1) };
        let args = (0..na).map(|_| text1(rng, o.text, if wordy { 400 } else { 12 })).collect();
        labels.push((l, args));
    }
    let nk = rng.range(1, 7);
    let mut kinds: Vec<String> = (0..nk).map(|_| rng.pick(KINDS).to_string()).collect();
    if o.kinds_text {
        for _ in 0..rng.below(3) {
            kinds.push(text(rng, o.text, 20));
        }
    }
    let nth = if many_threads { rng.range(40, 320) } else { rng.range(1, o.max_threads) };
    let tids = gen_tids(rng, nth, o.small_tids);
    let horizon = match rng.below(6) {
        0 => rng.range(1, 30),
        1 => rng.range(1, 5_000),
        2 => rng.range(1, 5_000_000),
        3 => rng.range(1, 10_000_000_000),
        4 => rng.range(1, 1 << 45),
        _ => rng.range(1 << 20, 1 << 36),
    }
    .max(if many_labels { 8 * nlab } else { 1 })
    .min(o.horizon);
    let base = match rng.below(5) {
        0 => 0,
        1 => o.horizon.saturating_sub(horizon),
        2 => (1u64 << 32).saturating_sub(rng.below(horizon + 1)).min(o.horizon - horizon),
        _ => rng.range(0, (o.horizon - horizon).min(1 << 40)),
    };
    let mut total = if deep > 0 || many_threads || many_labels {
        (2 * deep).max(4 * nth).max(2 * nlab)
    } else if rng.chance(1, 4) { o.max_events.max(1) } else { rng.logsize(o.max_events).max(1) };
    let mut per: Vec<Vec<Ev>> = Vec::new();
    for (i, &tid) in tids.iter().enumerate() {
        let share = if i + 1 == tids.len() {
            total
        } else if many_threads {
            rng.range(0, 6).min(total)
        } else {
            rng.range(0, total)
        };
        total -= share;
        let mut g = TG { o, labels: labels.clone(), kinds: kinds.clone(), budget: share, out: Vec::new(), tid };
        // a window for this thread
        let (mut a, mut b) = (rng.range(0, horizon), rng.range(0, horizon));
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        if rng.chance(1, 2) {
            a = 0;
            b = horizon;
        }
        let mut t = base + a;
        let end = base + b;
        let mut rounds = 0;
        if many_labels && i == 0 && end - t >= 4 * nlab {
            // every label occurs
            let slot = (end - t) / (2 * nlab);
            let mut order: Vec<usize> = (0..labels.len()).collect();
            rng.shuffle(&mut order);
            for l in order {
                let (s, e) = (rng.range(t, t + slot / 2), rng.range(t + slot / 2, t + slot));
                let (label, args) = labels[l].clone();
                let kind = match rng.pick(&kinds).clone() {
                    k if k == "QueryCacheHit" => "Query".to_string(),
                    k => k,
                };
                if e > s || o.zero_len {
                    g.out.push(Ev { kind, label, args, tid, pay: Pay::Interval(s, e) });
                }
                t += slot;
            }
        }
        if deep > 0 && t < end {
            let e = if rng.chance(1, 2) { end } else { rng.range(t + 1, end) };
            g.chain(rng, t, e, deep);
            t = e;
        }
        // top-level intervals come in about this many groups
        let most = if rng.chance(1, 2) { 6 } else { 6 + g.budget / 2 };
        while g.budget > 0 && rounds < most + 400 {
            rounds += 1;
            let hi = if rounds > most || rng.chance(1, 3 * (1 + most / 12)) { end } else { rng.range(t, t + ((end - t) / (1 + (most - rounds) / 4))) };
            if t == hi && !(o.zero_len && t == end) {
                if t == end {
                    break;
                }
                continue;
            }
            g.fill(rng, t, hi, 0);
            t = hi;
            if t == end && (!o.zero_len || rounds > most + 2) {
                break;
            }
        }
        per.push(g.out);
    }
    // Merge: keep each thread's order, interleave by end time mostly.
    let mut idx = vec![0usize; per.len()];
    let mut evs = Vec::new();
    let by_time = rng.chance(2, 3);
    let mut last_key: BTreeMap<usize, u64> = BTreeMap::new();
    loop {
        let mut cand: Vec<usize> = (0..per.len()).filter(|&i| idx[i] < per[i].len()).collect();
        if cand.is_empty() {
            break;
        }
        let pick = if by_time {
            let key = |i: usize, lk: &BTreeMap<usize, u64>| {
                per[i][idx[i]].pay.end().unwrap_or(*lk.get(&i).unwrap_or(&0))
            };
            cand.sort_by_key(|&i| key(i, &last_key));
            let i = cand[0];
            let k = key(i, &last_key);
            last_key.insert(i, k);
            i
        } else {
            *rng.pick(&cand)
        };
        evs.push(per[pick][idx[pick]].clone());
        idx[pick] += 1;
    }
    gen_meta(rng, evs, o.text)
}

pub fn gen_meta(rng: &mut Rng, evs: Vec<Ev>, t: Text) -> Trace {
    let start_ns = match rng.below(5) {
        0 => 0,
        1 => rng.below(1_000_000),
        2 => 1_600_000_000_000_000_000 + rng.below(1 << 60),
        3 => rng.below(1 << 63),
        _ => 1_700_000_000_123_456_789,
    };
    let cmd = match rng.below(5) {
        0 => String::new(),
        1 => format!("rustc --crate-name {} --edition=2021 ", text1(rng, Text::Plain, 12)),
        2 => format!("rustc --crate-name {}", text1(rng, Text::Plain, 12)),
        _ => text(rng, t, 60),
    };
    let pid = if rng.chance(1, 4) { u32::MAX - rng.below(3) as u32 } else { rng.below(70000) as u32 };
    Trace { evs, start_ns, pid, cmd }
}

/// Arbitrary events without any nesting structure (for decode-level properties).
pub fn gen_loose(rng: &mut Rng, n: usize, t: Text, max_label: u64, max_args: u64) -> Trace {
    let nl = rng.range(1, 10);
    let labels: Vec<(String, Vec<String>)> = (0..nl)
        .map(|_| {
            let l = text1(rng, t, max_label);
            let na = if rng.chance(1, 2) { 0 } else { rng.below(max_args + 1) };
            (l, (0..na).map(|_| text1(rng, t, 16)).collect())
        })
        .collect();
    let kinds: Vec<String> = (0..rng.range(1, 6))
        .map(|_| if rng.chance(1, 2) { rng.pick(KINDS).to_string() } else { text(rng, t, 16) })
        .collect();
    let evs = (0..n)
        .map(|_| {
            let (label, args) = rng.pick(&labels).clone();
            Ev { kind: rng.pick(&kinds).clone(), label, args, tid: val32(rng), pay: gen_pay(rng) }
        })
        .collect();
    gen_meta(rng, evs, t)
}

pub fn val32(rng: &mut Rng) -> u32 {
    match rng.below(4) {
        0 => rng.below(8) as u32,
        1 => *rng.pick(&[0, 255, 256, 65535, 65536, u32::MAX, u32::MAX - 1, 1 << 31]),
        _ => rng.next() as u32 >> rng.below(32),
    }
}

/// A 48-bit value with a bias for boundaries.
pub fn val48(rng: &mut Rng, max: u64) -> u64 {
    let v = match rng.below(6) {
        0 => rng.below(4),
        1 => max - rng.below(4),
        2 => {
            let b = 1u64 << rng.below(48);
            b.wrapping_add(rng.below(3)).wrapping_sub(1)
        }
        3 => rng.next() & 0xFFFF_FFFF,
        4 => (rng.next() & 0xFFFF) << 32 | *rng.pick(&[0, 1, 0xFFFF_FFFF, 0xFFFF_FFFE, 0x7FFF_FFFF, 0x8000_0000]),
        _ => rng.next() >> 16,
    };
    v.min(max)
}

pub fn gen_pay(rng: &mut Rng) -> Pay {
    match rng.below(3) {
        0 => {
            let (a, b) = (val48(rng, MAX_INTERVAL), val48(rng, MAX_INTERVAL));
            Pay::Interval(a.min(b), a.max(b))
        }
        1 => Pay::Instant(val48(rng, MAX_SINGLE)),
        _ => Pay::Integer(val48(rng, MAX_SINGLE)),
    }
}

//! Independent encoder of profile files (versions 8 and 9), written from the format documentation.
use crate::core::*;
use crate::gen::*;
use std::collections::HashMap;

pub const VMAX: u64 = 100_000_000;
pub const META_ID: u64 = VMAX + 1;
pub const FIRST: u64 = VMAX + 3;
pub const PAGE: usize = 256 * 1024;

pub enum Part<'a> {
    S(&'a str),
    Id(u64),
}

pub struct StrEnc {
    pub v: u32,
    pub data: Vec<u8>,
    pub index: Vec<u8>,
    /// keep off the version-8 divergence listed in known-findings.txt
    pub avoid: bool,
}

impl StrEnc {
    pub fn new(v: u32) -> StrEnc {
        let mut data = b"MMSD".to_vec();
        data.extend_from_slice(&v.to_le_bytes());
        let mut index = b"MMSI".to_vec();
        index.extend_from_slice(&v.to_le_bytes());
        StrEnc { v, data, index, avoid: v == 8 }
    }
    pub fn add(&mut self, parts: &[Part]) -> u64 {
        if self.avoid {
            if let Some(Part::Id(_)) = parts.first() {
                let mut b: Vec<u8> = Vec::new();
                for p in parts {
                    match p {
                        Part::S(s) => b.extend_from_slice(s.as_bytes()),
                        Part::Id(i) => {
                            b.push(0xFE);
                            b.extend_from_slice(&(*i as u32).to_le_bytes());
                        }
                    }
                }
                b.push(0xFF);
                let at = b.iter().position(|x| *x == 0xFF).unwrap();
                if at == self.data.len() + 5 {
                    self.data.push(0xFF);
                }
            }
        }
        let id = self.data.len() as u64 + FIRST;
        for p in parts {
            match p {
                Part::S(s) => self.data.extend_from_slice(s.as_bytes()),
                Part::Id(i) => {
                    self.data.push(0xFE);
                    if self.v == 8 {
                        self.data.extend_from_slice(&(*i as u32).to_le_bytes());
                    } else {
                        self.data.extend_from_slice(&i.to_le_bytes());
                    }
                }
            }
        }
        self.data.push(0xFF);
        id
    }
    pub fn map(&mut self, virt: u64, id: u64) {
        let addr = id - FIRST;
        if self.v == 8 {
            self.index.extend_from_slice(&(virt as u32).to_le_bytes());
            self.index.extend_from_slice(&(addr as u32).to_le_bytes());
        } else {
            self.index.extend_from_slice(&virt.to_le_bytes());
            self.index.extend_from_slice(&addr.to_le_bytes());
        }
    }
}

pub fn put_event(out: &mut Vec<u8>, v: u32, kind: u64, id: u64, tid: u32, pay: &Pay) {
    let (a, b) = match *pay {
        Pay::Interval(s, e) => (s, e),
        Pay::Instant(t) => (t, 0xFFFF_FFFF_FFFF),
        Pay::Integer(t) => (t, 0xFFFF_FFFF_FFFE),
    };
    if v == 8 {
        out.extend_from_slice(&(kind as u32).to_le_bytes());
        out.extend_from_slice(&(id as u32).to_le_bytes());
    } else {
        out.extend_from_slice(&kind.to_le_bytes());
        out.extend_from_slice(&id.to_le_bytes());
    }
    out.extend_from_slice(&tid.to_le_bytes());
    let mut p = [0u8; 12];
    p[0..4].copy_from_slice(&a.to_le_bytes()[0..4]);
    p[4..8].copy_from_slice(&b.to_le_bytes()[0..4]);
    p[8..10].copy_from_slice(&b.to_le_bytes()[4..6]);
    p[10..12].copy_from_slice(&a.to_le_bytes()[4..6]);
    out.extend_from_slice(&p);
}

pub struct Streams {
    pub v: u32,
    pub events: Vec<u8>,
    pub data: Vec<u8>,
    pub index: Vec<u8>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Enc {
    /// every string plain, no sharing
    Simple,
    /// random sharing, composition, virtual ids
    Mixed,
}

pub fn metadata_json(t: &Trace, counter: bool) -> String {
    let cmd = serde_json::to_string(&t.cmd).unwrap();
    if counter {
        format!(
            r#"{{ "start_time": {}, "process_id": {}, "cmd": {}, "counter": {{ "name": "wall-time", "units": [["ns", 1]] }} }}"#,
            t.start_ns, t.pid, cmd
        )
    } else {
        format!(r#"{{ "start_time": {}, "process_id": {}, "cmd": {} }}"#, t.start_ns, t.pid, cmd)
    }
}

/// Encodes the text `s` under a random representation and returns its id.
pub fn put_text(st: &mut StrEnc, rng: &mut Rng, s: &str, enc: Enc, virt: &mut u64, late: &mut Vec<(u64, u64)>) -> u64 {
    if enc == Enc::Simple {
        return st.add(&[Part::S(s)]);
    }
    match rng.below(8) {
        0 => {
            // split in two, one half by reference
            let mut cut = rng.us(s.len() + 1);
            while !s.is_char_boundary(cut) {
                cut -= 1;
            }
            let (a, b) = s.split_at(cut);
            if rng.chance(1, 2) {
                let ia = st.add(&[Part::S(a)]);
                st.add(&[Part::Id(ia), Part::S(b)])
            } else {
                let ib = st.add(&[Part::S(b)]);
                st.add(&[Part::S(a), Part::Id(ib)])
            }
        }
        1 => {
            let i = st.add(&[Part::S(s)]);
            st.add(&[Part::Id(i)])
        }
        2 => {
            let mut cut = rng.us(s.len() + 1);
            while !s.is_char_boundary(cut) {
                cut -= 1;
            }
            let ia = st.add(&[Part::S(&s[..cut])]);
            let ib = st.add(&[Part::S(&s[cut..])]);
            let ie = st.add(&[]);
            st.add(&[Part::Id(ia), Part::Id(ie), Part::Id(ib)])
        }
        3 | 4 => {
            let v = *virt;
            *virt = if rng.chance(1, 5) { virt.saturating_sub(rng.range(1, 1000)) } else { virt.saturating_sub(1) };
            let i = st.add(&[Part::S(s)]);
            if rng.chance(1, 2) {
                st.map(v, i);
            } else {
                late.push((v, i));
            }
            if rng.chance(1, 4) {
                st.add(&[Part::Id(v)])
            } else {
                v
            }
        }
        _ => st.add(&[Part::S(s)]),
    }
}

/// The metadata as one text or composed of some.
fn put_metadata(st: &mut StrEnc, t: &Trace, counter: bool, enc: Enc, rng: &mut Rng) {
    let json = metadata_json(t, counter);
    let mut left = &json[..];
    let mut parts = vec![];
    if enc == Enc::Mixed && rng.chance(1, 5) {
        for _ in 0..rng.range(1, 4) {
            let mut k = rng.us(left.len() + 1);
            while !left.is_char_boundary(k) {
                k -= 1;
            }
            let (a, b) = left.split_at(k);
            left = b;
            if a.is_empty() {
                continue;
            }
            if rng.chance(1, 2) {
                let i = st.add(&[Part::S(a)]);
                let i = if rng.chance(1, 4) { st.add(&[Part::Id(i)]) } else { i };
                parts.push(Part::Id(i));
            } else {
                parts.push(Part::S(a));
            }
        }
    }
    if !left.is_empty() || parts.is_empty() {
        parts.push(Part::S(left));
    }
    let m = st.add(&parts);
    st.map(META_ID, m);
}

pub fn encode(t: &Trace, v: u32, enc: Enc, rng: &mut Rng) -> Streams {
    let mut st = StrEnc::new(v);
    let mut events = b"MMES".to_vec();
    events.extend_from_slice(&v.to_le_bytes());
    let mut cache: HashMap<String, u64> = HashMap::new();
    let mut virt = VMAX;
    let mut late = Vec::new();
    let meta_first = enc == Enc::Simple || rng.chance(2, 3);
    let counter = v == 9 && rng.chance(1, 2);
    if meta_first {
        put_metadata(&mut st, t, counter, enc, rng);
    }
    for e in &t.evs {
        let mut get = |s: &str, st: &mut StrEnc, rng: &mut Rng| -> u64 {
            if let Some(&i) = cache.get(s) {
                if !rng.chance(1, 6) {
                    return i;
                }
            }
            let i = put_text(st, rng, s, enc, &mut virt, &mut late);
            cache.insert(s.to_string(), i);
            i
        };
        let kind = get(&e.kind, &mut st, rng);
        let id = if e.args.is_empty() {
            get(&e.label, &mut st, rng)
        } else if enc == Enc::Mixed && rng.chance(1, 3) {
            let mut s = e.label.clone();
            for a in &e.args {
                s.push('\x1E');
                s.push_str(a);
            }
            get(&s, &mut st, rng)
        } else {
            let l = get(&e.label, &mut st, rng);
            let mut parts = vec![Part::Id(l)];
            for a in &e.args {
                parts.push(Part::S("\x1E"));
                if enc == Enc::Mixed && rng.chance(1, 3) {
                    parts.push(Part::S(a));
                } else {
                    parts.push(Part::Id(get(a, &mut st, rng)));
                }
            }
            st.add(&parts)
        };
        put_event(&mut events, v, kind, id, e.tid, &e.pay);
    }
    for (v, i) in late {
        st.map(v, i);
    }
    if !meta_first {
        put_metadata(&mut st, t, counter, enc, rng);
    }
    Streams { v, events, data: st.data, index: st.index }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Paging {
    /// one page per stream
    Single,
    /// like the library: pages up to 256 KiB
    Library,
    /// random sizes and interleaving
    Random,
    /// one byte per page
    Bytes,
}

pub fn put_page(out: &mut Vec<u8>, tag: u8, b: &[u8]) {
    out.push(tag);
    out.extend_from_slice(&(b.len() as u32).to_le_bytes());
    out.extend_from_slice(b);
}

pub fn paginate(s: &Streams, p: Paging, rng: &mut Rng) -> Vec<u8> {
    let mut out = b"MMPD".to_vec();
    out.extend_from_slice(&s.v.to_le_bytes());
    let st: [(&[u8], u8); 3] = [(&s.events, 0), (&s.data, 1), (&s.index, 2)];
    let mut pos = [0usize; 3];
    match p {
        Paging::Single => {
            let mut order = [0, 1, 2];
            rng.shuffle(&mut order);
            for i in order {
                put_page(&mut out, st[i].1, st[i].0);
            }
        }
        _ => loop {
            let live: Vec<usize> = (0..3).filter(|&i| pos[i] < st[i].0.len()).collect();
            if live.is_empty() {
                break;
            }
            let i = *rng.pick(&live);
            let left = st[i].0.len() - pos[i];
            let n = match p {
                Paging::Bytes => 1,
                Paging::Library => {
                    if st[i].1 == 0 {
                        // whole records only
                        let rec = if s.v == 8 { 24 } else { 32 };
                        let n = PAGE / rec * rec - if pos[i] == 0 { rec - 8 } else { 0 };
                        n.min(left)
                    } else {
                        PAGE.min(left)
                    }
                }
                _ => match rng.below(4) {
                    0 => 1,
                    1 => rng.range(1, 40) as usize,
                    2 => rng.logsize(left as u64) as usize,
                    _ => left,
                }
                .clamp(1, left),
            };
            put_page(&mut out, st[i].1, &st[i].0[pos[i]..pos[i] + n]);
            pos[i] += n;
        },
    }
    out
}

pub fn file(t: &Trace, v: u32, enc: Enc, p: Paging, rng: &mut Rng) -> Vec<u8> {
    let s = encode(t, v, enc, rng);
    paginate(&s, p, rng)
}

//! Independent decoder of version-9 profile files, written from the format documentation.
use crate::enc::{FIRST, META_ID, VMAX};
use crate::gen::{Ev, Pay};
use std::collections::HashMap;

pub struct Page {
    pub tag: u8,
    pub off: usize,
    pub len: usize,
}

/// Splits the paged part (after the 8-byte file header) into pages.
pub fn pages(b: &[u8]) -> Result<Vec<Page>, String> {
    let mut out = Vec::new();
    let mut p = 0usize;
    while p < b.len() {
        if p + 5 > b.len() {
            return Err(format!("page header at {p} cut off"));
        }
        let tag = b[p];
        if tag > 2 {
            return Err(format!("page tag {tag} at {p}"));
        }
        let len = u32::from_le_bytes([b[p + 1], b[p + 2], b[p + 3], b[p + 4]]) as usize;
        if len == 0 {
            return Err(format!("empty page at {p}"));
        }
        if p + 5 + len > b.len() {
            return Err(format!("page at {p} of {len} bytes runs past the end"));
        }
        out.push(Page { tag, off: p + 5, len });
        p += 5 + len;
    }
    Ok(out)
}

pub fn streams(b: &[u8]) -> Result<[Vec<u8>; 3], String> {
    let mut s = [Vec::new(), Vec::new(), Vec::new()];
    for p in pages(b)? {
        s[p.tag as usize].extend_from_slice(&b[p.off..p.off + p.len]);
    }
    Ok(s)
}

pub struct Table {
    pub data: Vec<u8>,
    pub index: HashMap<u64, u64>,
}

impl Table {
    pub fn new(data: Vec<u8>, index: &[u8]) -> Result<Table, String> {
        if data.len() < 8 || &data[..4] != b"MMSD" || data[4..8] != 9u32.to_le_bytes() {
            return Err("bad string data header".into());
        }
        if index.len() < 8 || &index[..4] != b"MMSI" || index[4..8] != 9u32.to_le_bytes() {
            return Err("bad string index header".into());
        }
        let ix = &index[8..];
        if ix.len() % 16 != 0 {
            return Err("index size not a multiple of 16".into());
        }
        let mut m = HashMap::new();
        for e in ix.chunks(16) {
            m.insert(
                u64::from_le_bytes(e[..8].try_into().unwrap()),
                u64::from_le_bytes(e[8..].try_into().unwrap()),
            );
        }
        Ok(Table { data, index: m })
    }
    pub fn get(&self, id: u64) -> Result<String, String> {
        let mut out = Vec::new();
        self.put(id, &mut out, 0)?;
        String::from_utf8(out).map_err(|e| format!("string {id}: {e}"))
    }
    fn put(&self, id: u64, out: &mut Vec<u8>, depth: usize) -> Result<(), String> {
        if depth > 100_000 {
            return Err("reference cycle".into());
        }
        let addr = if id <= META_ID {
            match self.index.get(&id) {
                Some(a) => *a,
                None => {
                    out.extend_from_slice(b"<unknown>");
                    return Ok(());
                }
            }
        } else if id < FIRST {
            return Err(format!("reserved id {id}"));
        } else {
            id - FIRST
        };
        let mut p = addr as usize;
        if p < 8 {
            return Err(format!("string {id} points into the header"));
        }
        loop {
            match self.data.get(p) {
                None => return Err(format!("string {id} runs past the end")),
                Some(0xFF) => return Ok(()),
                Some(0xFE) => {
                    let b = self.data.get(p + 1..p + 9).ok_or("reference cut off")?;
                    self.put(u64::from_le_bytes(b.try_into().unwrap()), out, depth + 1)?;
                    p += 9;
                }
                Some(b) => {
                    out.push(*b);
                    p += 1;
                }
            }
        }
    }
}

pub struct RawEv {
    pub kind: u64,
    pub id: u64,
    pub tid: u32,
    pub pay: Pay,
}

pub struct Decoded {
    pub raw: Vec<RawEv>,
    pub table: Table,
    pub meta: String,
    pub num_pages: usize,
}

impl Decoded {
    pub fn ev(&self, r: &RawEv) -> Result<Ev, String> {
        let id = self.table.get(r.id)?;
        let mut it = id.split('\x1E').map(|s| s.to_string());
        let label = it.next().unwrap();
        Ok(Ev { kind: self.table.get(r.kind)?, label, args: it.collect(), tid: r.tid, pay: r.pay.clone() })
    }
    pub fn evs(&self) -> Result<Vec<Ev>, String> {
        self.raw.iter().map(|r| self.ev(r)).collect()
    }
}

pub fn events(ev: &[u8]) -> Result<Vec<RawEv>, String> {
    if ev.len() < 8 || &ev[..4] != b"MMES" || ev[4..8] != 9u32.to_le_bytes() {
        return Err("bad event stream header".into());
    }
    let ev = &ev[8..];
    if ev.len() % 32 != 0 {
        return Err("event stream size not a multiple of 32".into());
    }
    let mut out = Vec::new();
    for r in ev.chunks(32) {
        let u = |o: usize| u64::from_le_bytes(r[o..o + 8].try_into().unwrap());
        let mut a = [0u8; 8];
        a[..4].copy_from_slice(&r[20..24]);
        a[4..6].copy_from_slice(&r[30..32]);
        let mut b = [0u8; 8];
        b[..4].copy_from_slice(&r[24..28]);
        b[4..6].copy_from_slice(&r[28..30]);
        let (a, b) = (u64::from_le_bytes(a), u64::from_le_bytes(b));
        let pay = match b {
            0xFFFF_FFFF_FFFF => Pay::Instant(a),
            0xFFFF_FFFF_FFFE => Pay::Integer(a),
            _ => Pay::Interval(a, b),
        };
        out.push(RawEv { kind: u(0), id: u(8), tid: u32::from_le_bytes(r[16..20].try_into().unwrap()), pay });
    }
    Ok(out)
}

pub fn decode(file: &[u8]) -> Result<Decoded, String> {
    if file.len() < 8 || &file[..4] != b"MMPD" || file[4..8] != 9u32.to_le_bytes() {
        return Err("bad file header".into());
    }
    let body = &file[8..];
    let num_pages = pages(body)?.len();
    let [e, d, i] = streams(body)?;
    let raw = events(&e)?;
    let table = Table::new(d, &i)?;
    let meta = table.get(META_ID)?;
    let _ = VMAX;
    Ok(Decoded { raw, table, meta, num_pages })
}

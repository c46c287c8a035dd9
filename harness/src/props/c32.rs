//! C32: headers identify files and streams.
use super::*;
use measureme::file_header::*;
use std::io::{self, Write};

pub fn props() -> Vec<Prop> {
    vec![prop("C32", 1000000, run, "byte strings that differ and are close to a valid header")]
}

/// A writer that takes a few bytes at a time, is interrupted, or fails at a given point.
struct Odd {
    got: Vec<u8>,
    room: usize,
    step: usize,
    stutter: u64,
    rng: Rng,
}

impl Write for Odd {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.rng.below(4) < self.stutter {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let n = b.len().min(self.step).min(self.room - self.got.len());
        if n == 0 && !b.is_empty() {
            return Err(io::Error::new(io::ErrorKind::Other, "no room left here"));
        }
        self.got.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

const MAGICS: [&[u8; 4]; 4] = [b"MMPD", b"MMES", b"MMSD", b"MMSI"];

fn run(ctx: &mut Ctx, _idx: u64, rng: &mut Rng) -> R {
    check!(
        [FILE_MAGIC_TOP_LEVEL, FILE_MAGIC_EVENT_STREAM, FILE_MAGIC_STRINGTABLE_DATA, FILE_MAGIC_STRINGTABLE_INDEX] == MAGICS && CURRENT_FILE_FORMAT_VERSION == 9 && FILE_HEADER_SIZE == 8,
        "the documented header changed"
    );
    let magic: [u8; 4] = if rng.chance(3, 4) { **rng.pick(&MAGICS) } else { (rng.next() as u32).to_le_bytes() };
    let header: Vec<u8> = magic.iter().copied().chain(9u32.to_le_bytes()).collect();
    // writing
    let room = if rng.chance(2, 3) { 100 } else { rng.us(8) };
    let mut w = Odd { got: vec![], room, step: rng.range(1, 9) as usize, stutter: rng.below(3), rng: rng.fork() };
    let r = cut("write_file_header", || write_file_header(&mut w, &magic).map_err(|e| e.to_string()))?;
    if room >= 8 {
        check!(r.is_ok() && w.got == header, "write_file_header({magic:?}) wrote {:?} and returned {r:?}", w.got);
    } else {
        check!(matches!(&r, Err(e) if e.contains("no room left here")), "write_file_header to a writer that fails after {room} bytes returned {r:?}");
        check!(header.starts_with(&w.got), "write_file_header wrote {:?}", w.got);
        ctx.count("failing_writers", 1);
    }
    // reading: the header, followed by anything, possibly altered
    let mut b = header.clone();
    for _ in 0..rng.logsize(40) {
        b.push(rng.next() as u8);
    }
    match rng.below(8) {
        0 => b.truncate(rng.us(9)),
        1 => b[rng.us(8)] ^= 1 << rng.below(8),
        2 => b[4..8].copy_from_slice(&(*rng.pick(&[0u32, 1, 7, 8, 9, 10, 255, 256, 9 << 8, 9 << 16, 9 << 24, u32::MAX])).to_le_bytes()),
        3 => b[4..8].copy_from_slice(&(rng.next() as u32).to_le_bytes()),
        4 => {
            let m = **rng.pick(&MAGICS);
            b[..4].copy_from_slice(&m);
        }
        5 => b.swap(rng.us(8), 0),
        _ => {}
    }
    let long = b.len() >= 8;
    let same = long && b[..4] == magic;
    let version = if long { u32::from_le_bytes([b[4], b[5], b[6], b[7]]) } else { 0 };
    let name = text1(rng, Text::Plain, 12);
    let path = if rng.chance(1, 2) { Some(PathBuf::from(format!("some dir/{name}.mm_profdata"))) } else { None };
    let tag = format!("stream-{}", rng.below(1000));
    let what = format!("{:?} as {:?}", &b[..b.len().min(12)], magic);
    let told = |e: &str, f: &str| -> R {
        check!(e.contains(&tag), "{f} of {what}: the error does not name the stream {tag}: {e}");
        if let Some(p) = &path {
            check!(e.contains(&p.display().to_string()), "{f} of {what}: the error does not name the file: {e}");
        }
        Ok(())
    };
    let v = cut("verify_file_header", || verify_file_header(&b, &magic, path.as_deref(), &tag).map_err(|e| e.to_string()))?;
    match &v {
        Ok(()) => check!(same && version == 9, "verify_file_header accepts {what}"),
        Err(e) => {
            check!(!(same && version == 9), "verify_file_header rejects {what}: {e}");
            told(e, "verify_file_header")?;
        }
    }
    let r = cut("read_file_header", || decodeme::read_file_header(&b, &magic, path.as_deref(), &tag).map_err(|e| e.to_string()))?;
    match &r {
        Ok(x) => check!(same && *x == version, "read_file_header of {what} gives version {x}"),
        Err(e) => {
            check!(!same, "read_file_header rejects {what}: {e}");
            told(e, "read_file_header")?;
        }
    }
    if long {
        let s = cut("strip_file_header", || strip_file_header(&b))?;
        check!(s == &b[8..] && s.as_ptr() == b[8..].as_ptr(), "strip_file_header of {what} gives {:?}", s);
    }
    // in place: a profile whose streams carry altered headers is refused, and one with the right ones is not
    if rng.chance(1, 20) {
        whole(ctx, rng)?;
    }
    ctx.count("accepted", v.is_ok() as u64);
    ctx.count("rejected", v.is_err() as u64);
    ctx.eval(if b.len() >= 4 { Some(hash_bytes(&b) ^ hash_bytes(&magic).rotate_left(9)) } else { None });
    ctx.sample(|| format!("{what}: verified {}, read {r:?}", v.is_ok()));
    Ok(())
}

fn whole(ctx: &mut Ctx, rng: &mut Rng) -> R {
    use crate::enc::{self, Enc, Paging};
    let t = gen_trace(rng, &GenOpts { max_events: 4, ..Default::default() });
    let v = *rng.pick(&[8u32, 9, 9]);
    let f = enc::file(&t, v, Enc::Simple, Paging::Library, rng);
    let streams = crate::refdec::streams(&f[8..]).map_err(|m| Violation { msg: m })?;
    let mut s = streams.clone();
    let k = rng.us(3);
    let how = match rng.below(4) {
        0 => {
            let j = (k + 1 + rng.us(2)) % 3;
            s.swap(k, j);
            "exchanged"
        }
        1 => {
            let i = rng.us(4);
            s[k][i] ^= 1 << rng.below(8);
            "given another magic"
        }
        2 => {
            let w = (rng.next() as u32) | 0x100;
            s[k][4..8].copy_from_slice(&w.to_le_bytes());
            "given another version"
        }
        _ => "left alone",
    };
    let mut b = f[..8].to_vec();
    let names = ["events", "string data", "string index"];
    for (tag, data) in s.iter().enumerate() {
        for c in data.chunks(200_000) {
            enc::put_page(&mut b, tag as u8, c);
        }
    }
    let r = traps(|| ProfilingData::from_paged_buffer(b.clone(), None).map(|_| ()).map_err(|e| e.to_string()));
    if how == "left alone" {
        check!(matches!(r, Ok(Ok(()))), "a version {v} profile is rejected: {r:?}");
    } else if v == 9 || how != "exchanged" {
        check!(matches!(r, Ok(Err(_))), "a version {v} profile with the {} stream {how} gives {r:?}", names[k]);
    } else {
        check!(!matches!(r, Ok(Ok(()))), "a version {v} profile with the {} stream {how} is accepted", names[k]);
    }
    ctx.count("whole_profiles", 1);
    Ok(())
}

//! C34: a profile is found under the path stem it was recorded under.
use super::*;
use measureme::{EventId, Profiler};
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::OsStrExt;

pub fn props() -> Vec<Prop> {
    vec![prop("C34", 240000, run, "(stem, surroundings) pairs that differ")]
}

fn name(rng: &mut Rng) -> OsString {
    let mut v: Vec<u8> = match rng.below(9) {
        0 => text1(rng, Text::Rich, 20).into_bytes(),
        1 => text1(rng, Text::Any, 20).into_bytes(),
        2 => (0..rng.range(1, 12)).map(|_| 1 + rng.below(255) as u8).collect(),
        3 => rng.pick(&["rustc-0012345", "a b", "-x", "--dir", "~", "*", "mm_profdata", "prof mm_profdata", "x.", "a..b", ".hidden", "v1.2.3", "x.mm_profdata", "x.mm_profdata.old", "é.ü", "events", "x.events", "x.string_data", "con", "\\", "a\nb", "'", "\"", "$x"]).as_bytes().to_vec(),
        _ => text1(rng, Text::Plain, 12).into_bytes(),
    };
    v.retain(|b| *b != 0 && *b != b'/');
    v.truncate(200);
    // std::path::Path::with_extension mistakes `..x` for the directory itself
    if v.is_empty() || v == b"." || v.starts_with(b"..") {
        v = b"p".to_vec();
    }
    OsString::from(OsStr::from_bytes(&v))
}

fn dotless(n: &OsStr) -> bool {
    !n.as_bytes().contains(&b'.')
}

fn record(stem: &Path, n: u64) -> R {
    let r = cut("recording", || -> Result<(), String> {
        let p = Profiler::new(stem).map_err(|e| e.to_string())?;
        let k = p.alloc_string("k");
        p.record_integer_event(k, EventId::from_label(k), 1, n);
        Ok(())
    })?;
    r.map_err(|e| Violation { msg: format!("Profiler::new({stem:?}) fails: {e}") })
}

fn run(ctx: &mut Ctx, _idx: u64, rng: &mut Rng) -> R {
    let mut dir = ctx.dir("c34");
    for _ in 0..rng.below(3) {
        dir.push(name(rng));
    }
    if std::fs::create_dir_all(&dir).is_err() {
        ctx.eval(None);
        return Ok(());
    }
    let base = name(rng);
    let stem = dir.join(&base);
    let n = rng.next() >> 17;
    let what = format!("stem {:?}", base);
    // other profiles and files around, all of which some sloppy look-up could take instead
    let exists = rng.chance(3, 4);
    let mut around = vec![];
    for _ in 0..rng.below(4) {
        let mut o = base.as_bytes().to_vec();
        match rng.below(6) {
            0 => o.push(b'x'),
            1 => drop(o.pop()),
            2 => o.make_ascii_uppercase(),
            3 => o.make_ascii_lowercase(),
            4 => o.extend(b".mm_profdata.bak"),
            _ => {}
        }
        let o = OsString::from(OsStr::from_bytes(&o));
        let is_other = dotless(&o) && dotless(&base) && o != base && !o.is_empty();
        if is_other {
            record(&dir.join(&o), n + 1)?;
            around.push(o);
        } else if o != base && !dotless(&o) && o.as_bytes().ends_with(b".bak") {
            std::fs::write(dir.join(&o), b"not a profile").ok();
        }
    }
    if dotless(&base) && rng.chance(1, 3) {
        // something under the bare stem
        if rng.chance(1, 2) {
            std::fs::write(&stem, b"MMPD").unwrap();
        } else {
            std::fs::create_dir_all(&stem).unwrap();
        }
    }
    let mut legacy = false;
    if rng.chance(1, 3) {
        let ext = *rng.pick(&["events", "string_data", "string_index"]);
        if dotless(&base) {
            std::fs::write(stem.with_extension(ext), b"MMES\x05\0\0\0").unwrap();
            legacy = true;
        }
    }
    if exists {
        record(&stem, n)?;
        let pd = match cut("ProfilingData::new", || ProfilingData::new(&stem))? {
            Ok(p) => p,
            Err(e) => return viol(format!("{what}: recorded, but cannot be opened: {e}")),
        };
        let v: Vec<Pay> = read_evs(&pd, pd.metadata().start_time)?.into_iter().map(|e| e.pay).collect();
        check!(v == [Pay::Integer(n)], "{what}: opening it gives a profile with {v:?} instead of {n}");
        if dotless(&base) {
            let mut file = base.clone();
            file.push(".mm_profdata");
            let file = dir.join(&file);
            check!(file.is_file(), "{what}: there is no file {file:?}");
            let pd = match cut("ProfilingData::new", || ProfilingData::new(&file))? {
                Ok(p) => p,
                Err(e) => return viol(format!("{what}: cannot be opened by its file name {file:?}: {e}")),
            };
            check!(pd.iter().next().and_then(|e| e.payload.integer()) == Some(n), "{what}: opening it by its file name gives another profile");
            ctx.count("opened_by_file_name", 1);
        }
        ctx.count("opened_by_stem", 1);
    } else if !dir.join(&base).with_extension("mm_profdata").exists() {
        let r = cut("ProfilingData::new", || ProfilingData::new(&stem).map(|_| ()).map_err(|e| e.to_string()))?;
        let Err(e) = r else { return viol(format!("{what}: does not exist, but is opened (around: {around:?})")) };
        let shown = dir.join(&base).with_extension("mm_profdata").display().to_string();
        check!(e.contains(&shown), "{what}: the error for a missing profile does not name {shown}: {e}");
        if dotless(&base) {
            check!(e.contains("out-dated version") == legacy, "{what}: old-format files are {} there, the error is: {e}", if legacy { "" } else { "not" });
        }
        ctx.count("missing_profiles", 1);
        ctx.count("missing_with_files_of_the_old_format", legacy as u64);
    }
    let mut h = Hasher64::new();
    h.bytes(base.as_bytes());
    h.add(exists as u64 * 8 + legacy as u64 * 4 + around.len() as u64);
    ctx.eval(Some(h.0));
    ctx.sample(|| format!("{what}: {}", if exists { "recorded and opened" } else { "missing" }));
    Ok(())
}

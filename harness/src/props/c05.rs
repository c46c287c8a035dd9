//! C05: every string identifier resolves to exactly the string it was created for.
use super::*;
use crate::shim;
use decodeme::stringtable::StringTable;
use measureme::{PageTag, Profiler, SerializableString, SerializationSinkBuilder, StringComponent, StringId, StringTableBuilder};
use std::sync::Arc;

pub fn props() -> Vec<Prop> {
    vec![prop("C05", 6000, run, "string tables whose lists of (composition, content) differ and that hold at least one composed string")]
}

/// One string made of pieces, allocated through a randomly chosen representation.
fn alloc(alloc: &mut dyn FnMut(&[StringComponent], u8) -> StringId, parts: &[P], how: u8) -> StringId {
    let c: Vec<StringComponent> = parts
        .iter()
        .map(|p| match p {
            P::S(s) => StringComponent::Value(s),
            P::R(id) => StringComponent::Ref(*id),
        })
        .collect();
    alloc(&c, how)
}

pub enum P {
    S(String),
    R(StringId),
}

macro_rules! arr {
    ($f:expr, $c:expr, $($n:literal),*) => {
        match $c.len() {
            $($n => {
                let mut it = $c.iter().map(|x| match x {
                    StringComponent::Value(s) => StringComponent::Value(s),
                    StringComponent::Ref(r) => StringComponent::Ref(*r),
                });
                let a: [StringComponent; $n] = std::array::from_fn(|_| it.next().unwrap());
                $f(&a)
            })*
            _ => $f(&$c[..]),
        }
    };
}

pub trait Alloc {
    fn put<S: SerializableString + ?Sized>(&self, s: &S) -> StringId;
    fn map(&self, v: StringId, c: StringId);
}
impl Alloc for StringTableBuilder {
    fn put<S: SerializableString + ?Sized>(&self, s: &S) -> StringId {
        self.alloc(s)
    }
    fn map(&self, v: StringId, c: StringId) {
        self.map_virtual_to_concrete_string(v, c)
    }
}
impl Alloc for Profiler {
    fn put<S: SerializableString + ?Sized>(&self, s: &S) -> StringId {
        self.alloc_string(s)
    }
    fn map(&self, v: StringId, c: StringId) {
        self.map_virtual_to_concrete_string(v, c)
    }
}

pub fn put_parts<A: Alloc>(a: &A, c: &[StringComponent], how: u8) -> StringId {
    if how == 0 {
        if let [StringComponent::Value(s)] = c {
            return a.put(*s);
        }
    }
    if how <= 1 {
        struct F<'x, A>(&'x A);
        impl<'x, A: Alloc> F<'x, A> {
            fn go<S: SerializableString + ?Sized>(&self, s: &S) -> StringId {
                self.0.put(s)
            }
        }
        let f = F(a);
        return arr!(|x| f.go(x), c, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16);
    }
    a.put(c)
}

fn check_table(t: &StringTable, model: &[(StringId, String)]) -> R<u64> {
    let mut n = 0;
    for (id, want) in model {
        let r = t.get(*id);
        let a = cut("StringRef::to_string", || r.to_string().into_owned())?;
        check!(&a == want, "string {} (created as {}) reads as {} through to_string", id.as_u64(), show(want), show(&a));
        let mut b = String::from("PRE-");
        cut("StringRef::write_to_string", || r.write_to_string(&mut b))?;
        check!(b.strip_prefix("PRE-") == Some(&want[..]), "string {} (created as {}) reads as {} through write_to_string", id.as_u64(), show(want), show(&b));
        n += 1;
    }
    Ok(n)
}

/// Adds random strings; `addr` is the size of the string data written so far (only used to aim sizes).
fn grow<A: Alloc>(a: &A, rng: &mut Rng, n: u64, big: bool, addr0: u64, vnext: &mut u64, model: &mut Vec<(StringId, String)>, h: &mut Hasher64) -> R<u64> {
    let mut addr = addr0;
    let mut composed = 0;
    let mut late: Vec<(StringId, StringId)> = Vec::new();
    for _ in 0..n {
        let mut parts: Vec<P> = Vec::new();
        let mut want = String::new();
        let shape = rng.below(12);
        let refs = |rng: &mut Rng| -> Option<(StringId, String)> {
            if model.is_empty() {
                return None;
            }
            let (i, s) = if rng.chance(1, 2) { model.last().unwrap().clone() } else { model[rng.us(model.len())].clone() };
            if s.len() > 200_000 {
                None
            } else {
                Some((i, s))
            }
        };
        let mx = if big && rng.chance(1, 30) { 600_000 } else if rng.chance(1, 6) { 3000 } else { 40 };
        match shape {
            0..=3 => {
                let s = text(rng, Text::Any, mx);
                want.push_str(&s);
                parts.push(P::S(s));
            }
            4 => {
                if let Some((i, s)) = refs(rng) {
                    want.push_str(&s);
                    parts.push(P::R(i));
                }
            }
            5 => {
                // a reference first, then text whose length relates to the address of this string
                if let Some((i, s)) = refs(rng) {
                    want.push_str(&s);
                    parts.push(P::R(i));
                }
                let l = match rng.below(4) {
                    0 => addr,
                    1 => addr + 1,
                    2 => addr.saturating_sub(9),
                    _ => addr.saturating_sub(1),
                };
                if l < 300_000 {
                    let s = text_len(rng, Text::Plain, l as usize);
                    want.push_str(&s);
                    parts.push(P::S(s));
                }
            }
            _ => {
                let k = if rng.chance(1, 20) { rng.below(60) } else { rng.below(18) };
                for _ in 0..k {
                    if rng.chance(1, 2) {
                        if let Some((i, s)) = refs(rng) {
                            if want.len() + s.len() < 400_000 {
                                want.push_str(&s);
                                parts.push(P::R(i));
                            }
                        }
                    } else {
                        let s = text(rng, Text::Any, 30);
                        want.push_str(&s);
                        parts.push(P::S(s));
                    }
                }
            }
        }
        if parts.iter().any(|p| matches!(p, P::R(_))) {
            composed += 1;
        }
        h.add(parts.len() as u64);
        h.add(hash_bytes(want.as_bytes()));
        let how = rng.below(3) as u8;
        let id = cut("allocating a string", || alloc(&mut |c, how| put_parts(a, c, how), &parts, how))?;
        addr += parts.iter().map(|p| match p { P::S(s) => s.len() as u64, P::R(_) => 9 }).sum::<u64>() + 1;
        model.push((id, want.clone()));
        if rng.chance(1, 8) && *vnext < 100_000_000 {
            let v = StringId::new_virtual(*vnext);
            *vnext += if rng.chance(1, 3) { rng.range(1, 300) } else { 1 };
            if rng.chance(1, 2) {
                a.map(v, id);
            } else {
                late.push((v, id));
            }
            model.push((v, want));
        }
    }
    // deep nesting
    if rng.chance(1, 6) {
        let d = rng.range(1, if big { 1500 } else { 150 });
        let (mut id, mut s) = (cut("alloc", || a.put("core"))?, String::from("core"));
        for i in 0..d {
            let t = format!("{}", i % 10);
            let (parts, w): (Vec<P>, String) = match rng.below(3) {
                0 => (vec![P::R(id)], s.clone()),
                1 => (vec![P::R(id), P::S(t.clone())], format!("{s}{t}")),
                _ => (vec![P::S(t.clone()), P::R(id)], format!("{t}{s}")),
            };
            id = cut("alloc", || alloc(&mut |c, how| put_parts(a, c, how), &parts, 2))?;
            s = w;
            if rng.chance(1, 20) || i + 1 == d {
                model.push((id, s.clone()));
            }
        }
        composed += d;
    }
    for (v, c) in late {
        a.map(v, c);
    }
    Ok(composed)
}

fn run(ctx: &mut Ctx, idx: u64, rng: &mut Rng) -> R {
    if idx == 5 || (!ctx.quick() && idx % 4096 == 5) {
        return huge(ctx, idx, rng);
    }
    if idx % 150 == 17 {
        return deep(ctx, rng);
    }
    let big = rng.chance(1, 10);
    let n = rng.logsize(if big { 2000 } else { 120 }).max(1);
    let mut model = Vec::new();
    let mut vnext = *rng.pick(&[0u64, 1, 0xF0, 0xFD00, 0xFEFE, 0xFFFF0, 99_999_000, 0xFEFEF0]);
    let mut h = Hasher64::new();
    let composed;
    if rng.chance(3, 4) {
        let b = SerializationSinkBuilder::new_in_memory();
        let data = Arc::new(b.new_sink(PageTag::StringData));
        let index = Arc::new(b.new_sink(PageTag::StringIndex));
        let st = StringTableBuilder::new(data.clone(), index.clone()).map_err(|e| Violation { msg: e.to_string() })?;
        composed = grow(&st, rng, n, big, 8, &mut vnext, &mut model, &mut h)?;
        drop(st);
        let data = Arc::try_unwrap(data).unwrap_or_else(|_| panic!("shared")).into_bytes();
        let index = Arc::try_unwrap(index).unwrap_or_else(|_| panic!("shared")).into_bytes();
        ctx.maxc("string_data_bytes", data.len() as u64);
        let t = match cut("StringTable::new", || StringTable::new(data, index, None))? {
            Ok(t) => t,
            Err(e) => return viol(format!("string table rejected: {e}")),
        };
        let n = check_table(&t, &model)?;
        ctx.count("strings_read", n);
    } else {
        // through a profile file: every string is used as the kind of one event
        let dir = ctx.dir("c05");
        let stem = dir.join("p");
        let p = match cut("Profiler::new", || Profiler::new(&stem))? {
            Ok(p) => p,
            Err(e) => return viol(format!("Profiler::new failed: {e}")),
        };
        composed = grow(&p, rng, n, big, 300, &mut vnext, &mut model, &mut h)?;
        let lab = measureme::EventId::from_label(p.alloc_string("lab"));
        for (i, (id, _)) in model.iter().enumerate() {
            p.record_integer_event(*id, lab, 0, i as u64);
        }
        drop(p);
        let pd = open_file(&stem)?;
        let mut i = 0;
        let r = cut("reading events", || -> R {
            for e in pd.iter_full() {
                check!(i < model.len() && e.payload.integer() == Some(i as u64), "unexpected event");
                check!(e.event_kind == model[i].1, "string {} (created as {}) reads as {} in an event", model[i].0.as_u64(), show(&model[i].1), show(&e.event_kind));
                check!(e.label == "lab", "label reads as {}", show(&e.label));
                i += 1;
            }
            Ok(())
        })?;
        r?;
        check!(i == model.len(), "{} of {} events read", i, model.len());
        ctx.count("strings_read_in_events", i as u64);
    }
    ctx.count("composed_strings", composed);
    ctx.eval(if composed > 0 { Some(h.0) } else { None });
    ctx.sample(|| format!("{} identifiers ({composed} composed strings), e.g. {}", model.len(), show(&model.last().unwrap().1)));
    Ok(())
}

/// Strings nested far deeper than any call stack.
fn deep(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let b = SerializationSinkBuilder::new_in_memory();
    let data = Arc::new(b.new_sink(PageTag::StringData));
    let index = Arc::new(b.new_sink(PageTag::StringIndex));
    let st = StringTableBuilder::new(data.clone(), index.clone()).map_err(|e| Violation { msg: e.to_string() })?;
    let d = rng.range(1000, if ctx.quick() { 300_000 } else { 1_500_000 });
    let (mut front, mut back) = (String::new(), String::from("core"));
    let mut id = st.alloc("core");
    // how often a level adds text, and is referred to by a virtual id
    let (texts, virt) = (*rng.pick(&[0u64, 1, 3, 30]), *rng.pick(&[0u64, 0, 2, 100]));
    let mut v = rng.below(1000);
    let mut model = vec![];
    for i in 0..d {
        let t = ["é", "x", "\u{10FFFF}", "ÿþ", "0"][(i % 5) as usize];
        let (r, t) = (StringComponent::Ref(id), StringComponent::Value(t));
        let k = if texts > 0 && rng.below(texts) == 0 { 1 + rng.below(3) } else { 0 };
        let StringComponent::Value(x) = t else { unreachable!() };
        id = match k {
            0 => st.alloc(&[r]),
            1 => {
                back.push_str(x);
                st.alloc(&[r, t])
            }
            2 => {
                front.push(char::from(b'a' + (i % 26) as u8));
                st.alloc(&[StringComponent::Value(&front[front.len() - 1..]), r])
            }
            _ => {
                front.push('(');
                back.push(')');
                st.alloc(&[StringComponent::Value("("), r, StringComponent::Value(")")])
            }
        };
        if i % (d / 3 + 1) == d / 5 || i + 1 == d {
            let f: String = front.chars().rev().collect();
            model.push((id, f + &back));
        }
        if virt > 0 && rng.below(virt) == 0 {
            st.map_virtual_to_concrete_string(StringId::new_virtual(v), id);
            id = StringId::new_virtual(v);
            v += 1;
        }
    }
    drop(st);
    let data = Arc::try_unwrap(data).unwrap_or_else(|_| panic!("shared")).into_bytes();
    let index = Arc::try_unwrap(index).unwrap_or_else(|_| panic!("shared")).into_bytes();
    let t = match cut("StringTable::new", || StringTable::new(data, index, None))? {
        Ok(t) => t,
        Err(e) => return viol(format!("string table rejected: {e}")),
    };
    let n = check_table(&t, &model)?;
    ctx.count("deep_strings_read", n);
    ctx.maxc("nesting", d);
    ctx.eval(Some(mix(d << 16 ^ texts << 8 ^ virt)));
    Ok(())
}

struct Zeros(usize);
impl SerializableString for Zeros {
    fn serialized_size(&self) -> usize {
        self.0
    }
    fn serialize(&self, _bytes: &mut [u8]) {}
}

/// String data beyond 4 GiB. The filler consists of zero bytes, which the shim turns into holes of the file.
fn huge(ctx: &mut Ctx, idx: u64, rng: &mut Rng) -> R {
    let ctl = match shim::ctl() {
        Some(c) => c,
        None => return Ok(()),
    };
    let dir = ctx.dir("c05h");
    let stem = dir.join("p");
    let mut model = Vec::new();
    let mut vnext = *rng.pick(&[0u64, 1, 0xF0, 0xFD00, 0xFEFE, 0xFFFF0, 99_999_000, 0xFEFEF0]);
    let mut h = Hasher64::new();
    ctl.reset();
    shim::set(&ctl.sparse, 1);
    shim::set(&ctl.armed, 1);
    let p = match cut("Profiler::new", || Profiler::new(&stem))? {
        Ok(p) => p,
        Err(e) => return viol(format!("Profiler::new failed: {e}")),
    };
    let mut composed = grow(&p, rng, 20, false, 300, &mut vnext, &mut model, &mut h)?;
    let target = if idx == 5 { (4u64 << 30) + rng.below(1000) } else { (4u64 << 30) + rng.below(2 << 30) };
    let mut at = 0u64;
    while at < target {
        // keep off the exact boundary sometimes, step over it byte by byte at other times
        let n = (1u64 << 30).min(target - at).max(1);
        let id = cut("adding a huge string", || p.alloc_string(&Zeros(n as usize)))?;
        let a = id.as_u64() - crate::enc::FIRST;
        check!(a >= at, "a string of the data's byte {a} was added after byte {at}");
        at = a + n;
        let x = grow(&p, rng, 6, false, at, &mut vnext, &mut model, &mut h)?;
        composed += x;
        at = at.max(model.iter().map(|m| m.0.as_u64()).filter(|i| *i >= crate::enc::FIRST).max().unwrap_or(0).saturating_sub(crate::enc::FIRST));
    }
    composed += grow(&p, rng, 60, true, u64::MAX / 4, &mut vnext, &mut model, &mut h)?;
    let lab = measureme::EventId::from_label(p.alloc_string("lab"));
    for (i, (id, _)) in model.iter().enumerate() {
        p.record_integer_event(*id, lab, 0, i as u64);
    }
    cut("dropping the profiler", || drop(p))?;
    ctl.reset();
    let path = stem.with_extension("mm_profdata");
    let len = std::fs::metadata(&path).unwrap().len();
    check!(len > target, "the file has only {len} bytes");
    // The streams, without touching the holes: walk over the page headers.
    use std::os::unix::fs::FileExt;
    let f = std::fs::File::open(&path).unwrap();
    let mut pos = 8u64;
    let mut st: [Vec<u8>; 3] = [Vec::new(), Vec::new(), Vec::new()];
    // lazily zeroed memory of the right size
    let mut data: Vec<u8> = vec![0u8; len as usize];
    let mut dlen = 0usize;
    while pos < len {
        let mut hd = [0u8; 5];
        if f.read_exact_at(&mut hd, pos).is_err() {
            return viol(format!("page header at {pos} cut off"));
        }
        let n = u32::from_le_bytes(hd[1..].try_into().unwrap()) as usize;
        check!(hd[0] <= 2 && n > 0 && pos + 5 + n as u64 <= len, "bad page at {pos}: tag {} size {n}", hd[0]);
        let mut b = vec![0u8; n];
        f.read_exact_at(&mut b, pos + 5).unwrap();
        if hd[0] == 1 {
            if b.iter().any(|x| *x != 0) {
                data[dlen..dlen + n].copy_from_slice(&b);
            }
            dlen += n;
        } else {
            st[hd[0] as usize].extend_from_slice(&b);
        }
        pos += 5 + n as u64;
    }
    data.truncate(dlen);
    check!(dlen as u64 > (4u64 << 30), "string data of {dlen} bytes");
    let index = std::mem::take(&mut st[2]);
    let events = std::mem::take(&mut st[0]);
    let t = match cut("StringTable::new", || StringTable::new(data, index, None))? {
        Ok(t) => t,
        Err(e) => return viol(format!("string table rejected: {e}")),
    };
    let n = check_table(&t, &model)?;
    drop(t);
    match crate::refdec::events(&events) {
        Ok(r) => {
            check!(r.len() == model.len(), "{} events", r.len());
            for (e, m) in r.iter().zip(&model) {
                check!(e.kind == m.0.as_u64(), "event refers to string {} instead of {}", e.kind, m.0.as_u64());
            }
        }
        Err(e) => return viol(e),
    }
    if !ctx.quick() {
        // read the whole file through the library
        let pd = open_file(&stem)?;
        let mut i = 0;
        for e in pd.iter_full() {
            check!(e.event_kind == model[i].1, "string {} reads as {} in an event", model[i].0.as_u64(), show(&e.event_kind));
            i += 1;
        }
        check!(i == model.len(), "{i} events");
        ctx.count("profiles_beyond_4GiB_read_in_full", 1);
    }
    let _ = std::fs::remove_file(&path);
    ctx.count("strings_read", n);
    ctx.count("composed_strings", composed);
    ctx.count("profiles_beyond_4GiB", 1);
    ctx.maxc("string_data_bytes", dlen as u64);
    ctx.eval(Some(h.0));
    Ok(())
}

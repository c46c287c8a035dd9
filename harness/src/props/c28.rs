//! C28: counters are selected by name and failures are reported as they are.
use super::*;
use crate::shim::{self, get, set, Ctl};
use crate::refdec;
use measureme::counters::Counter;
use measureme::{EventId, Profiler};
use std::collections::BTreeSet;

pub fn props() -> Vec<Prop> {
    vec![prop("C28", 200000, run, "distinct combinations of counter name, processor, refusal or page state, and reading sequence")]
}

const NAMES: [&str; 4] = ["wall-time", "instructions:u", "instructions-minus-irqs:u", "instructions-minus-r0420:u"];
const HARDWARE: u64 = 0;
const RAW: u64 = 4;
const INSTRUCTIONS: u64 = 1;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Cpu {
    /// no counter is supported
    Unsupported,
    /// the event that counts interrupts, if there is one
    Irqs(Option<u64>),
}

/// What the documentation of the counters says about a processor.
fn classify(vendor: &[u8], family: u32, model: u32) -> Cpu {
    match vendor {
        b"AuthenticAMD" => match family {
            0..=14 | 19 => Cpu::Unsupported,
            15..=22 => Cpu::Irqs(Some(0xCF)),
            _ => Cpu::Irqs(Some(0x2C)),
        },
        b"GenuineIntel" => {
            let old = match family {
                0..=5 | 15 => true,
                6 => model <= 41 || [44, 46, 47, 53, 54, 55, 74, 76, 77, 87, 90, 93, 133].contains(&model),
                _ => false,
            };
            Cpu::Irqs(if old { None } else { Some(0x1CB) })
        }
        _ => Cpu::Unsupported,
    }
}

fn signature(family: u32, model: u32, stepping: u32) -> u32 {
    let (base, ext) = if family >= 15 { (15, family - 15) } else { (family, 0) };
    stepping | (model & 15) << 4 | base << 8 | (model >> 4) << 16 | ext << 20
}

/// The processor to run on; None: the real one.
fn pick_cpu(rng: &mut Rng) -> (Vec<u8>, u32, u32) {
    match rng.below(10) {
        0..=3 => {
            let (f, m) = *rng.pick(&[(15u32, 5u32), (15, 107), (16, 2), (16, 10), (17, 3), (18, 1), (20, 2), (21, 2), (21, 112), (22, 0), (22, 48), (23, 1), (23, 17), (23, 24), (23, 8), (23, 49), (23, 113), (23, 71), (24, 0), (25, 33), (25, 97), (26, 68), (19, 1), (6, 8), (5, 8)]);
            (b"AuthenticAMD".to_vec(), f, m)
        }
        4..=7 => {
            let (f, m) = *rng.pick(&[(6u32, 42u32), (6, 45), (6, 58), (6, 62), (6, 60), (6, 61), (6, 63), (6, 69), (6, 70), (6, 71), (6, 79), (6, 86), (6, 78), (6, 85), (6, 94), (6, 142), (6, 158), (6, 151), (6, 143), (6, 207), (6, 15), (6, 23), (6, 26), (6, 28), (6, 30), (6, 37), (6, 44), (6, 46), (6, 47), (6, 53), (6, 55), (6, 76), (6, 77), (6, 87), (6, 133), (15, 4), (15, 6), (5, 2), (5, 9), (18, 1), (19, 1)]);
            (b"GenuineIntel".to_vec(), f, m)
        }
        8 => {
            let v = if rng.chance(1, 2) { b"AuthenticAMD".to_vec() } else { b"GenuineIntel".to_vec() };
            let f = rng.range(0, 40) as u32;
            let m = if f >= 15 || f == 6 && v[0] == b'G' { rng.below(256) } else { rng.below(16) } as u32;
            (v, f, m)
        }
        _ => {
            let v = rng.pick(&[&b"HygonGenuine"[..], b"CentaurHauls", b"genuineintel", b"AuthenticAMd", b"TCGTCGTCGTCG", b"\xff\xfe\xff\xfe\xff\xfe\xff\xfe\xff\xfe\xff\xfe", b"            ", b"GenuineIotel"]).to_vec();
            (v, *rng.pick(&[6, 15, 23]), rng.below(256) as u32)
        }
    }
}

fn real_cpu() -> (Vec<u8>, u32, u32) {
    #[allow(unused_unsafe)]
    let (a, b) = unsafe { (std::arch::x86_64::__cpuid(0), std::arch::x86_64::__cpuid(1)) };
    let mut v = Vec::new();
    for x in [a.ebx, a.edx, a.ecx] {
        v.extend_from_slice(&x.to_le_bytes());
    }
    let e = b.eax;
    let mut f = e >> 8 & 15;
    let mut m = e >> 4 & 15;
    if f == 15 || f == 6 && v == b"GenuineIntel" {
        m |= (e >> 16 & 15) << 4;
    }
    if f == 15 {
        f += e >> 20 & 255;
    }
    (v, f, m)
}

struct Calls<'a> {
    c: &'a Ctl,
    cpu: bool,
}

impl<'a> Calls<'a> {
    /// Runs code of the library on the emulated processor.
    fn go<T>(&self, what: &str, f: impl FnOnce() -> T) -> R<T> {
        if self.cpu {
            check!(shim::cpuid(true), "internal: cpuid emulation");
        }
        let r = traps(f);
        if self.cpu {
            shim::cpuid(false);
        }
        r.map_err(|m| Violation { msg: format!("{what}: panicked: {m}") })
    }
}

struct Prof {
    p: Profiler,
    name: usize,
    path: PathBuf,
    /// possible registers: instructions, subtracted
    regs: Vec<(usize, Option<usize>)>,
    /// advance of all registers when it was created
    base: Vec<u64>,
    /// readings: the advance of all registers
    evs: Vec<(u64, Option<Vec<u64>>, Vec<u64>)>,
}

fn raw_error(e: i32) -> String {
    let s = std::io::Error::from_raw_os_error(e).to_string();
    s.split(" (os error").next().unwrap().to_string()
}

fn metadata(path: &Path, name: usize, what: &str) -> R {
    let b = std::fs::read(path).unwrap();
    let d = match refdec::decode(&b) {
        Ok(d) => d,
        Err(e) => return viol(format!("{what}: the profile is not in the documented format: {e}")),
    };
    let j: serde_json::Value = match serde_json::from_str(&d.meta) {
        Ok(j) => j,
        Err(e) => return viol(format!("{what}: metadata {} is not JSON: {e}", show(&d.meta))),
    };
    let units = if name == 0 {
        serde_json::json!([["ns", 1], ["μs", 1000], ["ms", 1000000], ["s", 1000000000]])
    } else {
        serde_json::json!([["instructions", 1]])
    };
    check!(j["counter"]["name"] == NAMES[name] && j["counter"]["units"] == units, "{what}: the metadata describes the counter as {}", j["counter"]);
    Ok(())
}

fn names(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let mut s = rng.pick(&NAMES).to_string();
    match rng.below(11) {
        9 => s.push_str(*rng.pick(&[":u", ":", ":k", "u", "-minus-irqs:u", ",", "=1", "/", "\0", ":u:u", "_", "-minus-r0420:u"])),
        10 => s.insert_str(0, *rng.pick(&["cpu/", "-", ":", "u:", "perf::", "\0", "hw-"])),
        0 => s = s.to_uppercase(),
        1 => s.push(' '),
        2 => s.insert(0, ' '),
        3 => {
            s.pop();
        }
        4 => s = s.replace(":u", ":k"),
        5 => s = s.replace(":u", ""),
        6 => s = text(rng, Text::Any, 20),
        7 => {
            let i = rng.us(s.len());
            s.remove(i);
        }
        _ => {
            let i = rng.us(s.len());
            s.replace_range(i..i + 1, *rng.pick(&["x", "-", "_", "é", ""]));
        }
    }
    if NAMES.contains(&&s[..]) {
        return Ok(());
    }
    match cut("Counter::by_name", || Counter::by_name(&s).map(|_| ()).map_err(|e| e.to_string()))? {
        Ok(()) => viol(format!("the name {} gives a counter", show(&s))),
        Err(e) => {
            check!(!e.is_empty(), "the name {} fails without a reason", show(&s));
            ctx.count("invalid_names", 1);
            ctx.eval(Some(hash_bytes(s.as_bytes())));
            Ok(())
        }
    }
}

/// Without emulation: what this machine really answers.
fn native(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let name = rng.us(4);
    let what = format!("counter {} without emulation", NAMES[name]);
    let dir = ctx.dir("c28");
    let r = cut(&what, || Counter::by_name(NAMES[name]).map_err(|e| e.to_string()))?;
    if name == 0 {
        let c = match r {
            Ok(c) => c,
            Err(e) => return viol(format!("{what}: {e}")),
        };
        match cut(&what, || Profiler::with_counter(dir.join("w"), c).map_err(|e| e.to_string()))? {
            Ok(p) => drop(p),
            Err(e) => return viol(format!("{what}: with_counter: {e}")),
        }
        metadata(&dir.join("w.mm_profdata"), 0, &what)?;
        match cut(&what, || Profiler::new(dir.join("d")).map_err(|e| e.to_string()))? {
            Ok(p) => drop(p),
            Err(e) => return viol(format!("Profiler::new: {e}")),
        }
        metadata(&dir.join("d.mm_profdata"), 0, "default counter")?;
        ctx.count("wall_time_profiles", 2);
    } else {
        let mut attr = [0u8; 128];
        attr[4] = 128;
        attr[8] = 1;
        attr[40] = 0x60;
        let fd = unsafe { libc::syscall(libc::SYS_perf_event_open, attr.as_ptr(), 0, -1, -1, 8) };
        if fd >= 0 {
            unsafe { libc::close(fd as i32) };
            ctx.count("machine_has_hardware_counters", 1);
        } else {
            let errno = std::io::Error::last_os_error().raw_os_error().unwrap();
            let (v, f, m) = real_cpu();
            match r {
                Ok(_) => return viol(format!("{what}: created although the system offers none")),
                Err(e) => {
                    if classify(&v, f, m) != Cpu::Unsupported && (name != 2 || classify(&v, f, m) != Cpu::Irqs(None)) {
                        check!(e.contains(&raw_error(errno)), "{what}: the system's reason is {:?}, the error says {}", raw_error(errno), show(&e));
                    }
                    ctx.count("native_refusals", 1);
                }
            }
        }
    }
    ctx.eval(None);
    Ok(())
}

fn page_problem(caps: i64, width: i64, index: i64) -> Vec<String> {
    let mut v = Vec::new();
    if caps & 4 == 0 {
        v.push("rdpmc".to_string());
    }
    if index == 0 {
        v.push("register".to_string());
    }
    if width != 48 {
        v.push(width.to_string());
    }
    v
}

fn emulated(ctx: &mut Ctx, c: &Ctl, rng: &mut Rng) -> R {
    let dir = ctx.dir("c28");
    c.reset();
    set(&c.perf, 1);
    let can = shim::cpuid(true);
    shim::cpuid(false);
    let fake = can && rng.chance(4, 5);
    let (vendor, family, model) = if fake { pick_cpu(rng) } else { real_cpu() };
    if fake {
        for i in 0..3 {
            set(&c.cpu_vendor[i], u32::from_le_bytes(vendor[4 * i..4 * i + 4].try_into().unwrap()) as i64);
        }
        set(&c.cpu_sig, signature(family, model, rng.below(16) as u32) as i64);
    }
    let cpu = classify(&vendor, family, model);
    let calls = Calls { c, cpu: fake };
    let desc = format!("on a processor {:?} family {family} model {model}", String::from_utf8_lossy(&vendor));
    let mut h = Hasher64::new();
    h.add(hash_bytes(desc.as_bytes()));
    set(&c.perf_index, rng.below(60) as i64);
    // all registers start somewhere that leaves room for 2^46 more
    let start: Vec<i64> = (0..64)
        .map(|_| match rng.below(4) {
            0 => -(1 << 47) + 1 + rng.below(1000) as i64,
            1 => -(rng.below(1 << 40) as i64),
            2 => rng.below(1 << 46) as i64,
            _ => -(rng.below(1 << 47) as i64),
        })
        .collect();
    let mut adv = vec![0u64; 64];
    let put = |adv: &[u64]| {
        for i in 0..64 {
            set(&c.pmc[i], start[i].wrapping_add(adv[i] as i64) & ((1 << 48) - 1));
        }
    };
    put(&adv);
    let mut profs: Vec<Prof> = Vec::new();
    // registers whose advance must stay small
    let mut small: BTreeSet<usize> = BTreeSet::new();
    let nprof = if rng.chance(1, 4) { rng.range(2, 3) } else { 1 };
    for pi in 0..nprof {
        let name = 1 + rng.us(3);
        let mut what = format!("counter {} {desc}", NAMES[name]);
        // what the system does
        let trouble = rng.below(8);
        let (mut errno, mut caps, mut width, mut zero) = (0, 6i64 | (rng.below(8) << 3) as i64, 48i64, 0i64);
        let before = get(&c.perf_opened);
        set(&c.perf_failed, -1);
        set(&c.perf_fail_at, -1);
        set(&c.perf_errno, 0);
        set(&c.perf_map_errno, 0);
        set(&c.perf_upd_at, 0);
        let mut new = None;
        match trouble {
            0 => {
                errno = *rng.pick(&[libc::EPERM, libc::EACCES, libc::ENOENT, libc::ENOSYS, libc::EMFILE, libc::EBUSY, libc::EINVAL, libc::EOPNOTSUPP, libc::ENODEV, libc::ENOSPC, libc::ESRCH, libc::E2BIG, libc::EBADF, libc::EINTR, libc::ENOMEM]);
                set(&c.perf_errno, errno as i64);
                if rng.chance(2, 3) {
                    set(&c.perf_fail_at, before + rng.below(4) as i64);
                }
                what += &format!(", perf_event_open fails with {}", raw_error(errno));
            }
            1 => {
                errno = *rng.pick(&[libc::EPERM, libc::EACCES, libc::ENOMEM, libc::EINVAL, libc::EAGAIN, libc::ENODEV]);
                set(&c.perf_map_errno, errno as i64);
                what += &format!(", mapping the counter's page fails with {}", raw_error(errno));
            }
            2 => {
                caps = rng.below(64) as i64;
                if rng.chance(1, 2) {
                    zero = 1;
                }
                if rng.chance(1, 2) {
                    width = *rng.pick(&[0, 1, 32, 40, 47, 49, 52, 56, 63, 64, 65535, 48]);
                }
            }
            3 => {
                match rng.below(3) {
                    0 => caps &= !4,
                    1 => zero = 1,
                    _ => width = *rng.pick(&[0, 32, 40, 47, 49, 64]),
                }
            }
            4 | 5 => {
                // one update of the page while it is read
                if rng.chance(1, 3) {
                    caps &= !4;
                }
                if rng.chance(1, 3) {
                    zero = 1;
                }
                if rng.chance(1, 3) {
                    width = 40;
                }
                let n = (if rng.chance(1, 3) { 2 } else { 6i64 }, if rng.chance(1, 3) { 44i64 } else { 48 }, if rng.chance(1, 4) { 0 } else { 1 + rng.below(60) as i64 });
                new = Some(n);
                set(&c.perf_upd_open, before + rng.below(3) as i64);
                set(&c.perf_upd_at, 1 + rng.below(12) as i64);
                set(&c.perf_accesses, 0);
                set(&c.perf_updated, 0);
                set(&c.perf_new_caps, n.0);
                set(&c.perf_new_width, n.1);
                set(&c.perf_new_index, n.2);
            }
            _ => {}
        }
        set(&c.perf_caps, caps);
        set(&c.perf_width, width);
        set(&c.perf_index_zero, zero);
        if trouble >= 2 && trouble <= 5 {
            what += &format!(", counter page with capabilities {caps:#b}, width {width}, {}", if zero == 1 { "no register" } else { "a register" });
        }
        if let Some(n) = new {
            what += &format!(", updated at access {} to capabilities {:#b}, width {}, index {}", get(&c.perf_upd_at), n.0, n.1, n.2);
        }
        h.add((trouble << 8) + name as u64);
        h.add(hash_bytes(what.as_bytes()));
        let r = calls.go(&what, || Counter::by_name(NAMES[name]).map_err(|e| e.to_string()))?;
        let opened = get(&c.perf_opened);
        let opens: Vec<(usize, u64, u64)> = (before..opened.min(shim::MAXC as i64)).map(|k| (k as usize, get(&c.perf_type[k as usize]) as u64, get(&c.perf_config[k as usize]) as u64)).collect();
        if opened > shim::MAXC as i64 {
            break;
        }
        // what should have happened
        let sub = match (name, cpu) {
            (_, Cpu::Unsupported) => None,
            (1, _) => Some(vec![(HARDWARE, INSTRUCTIONS)]),
            (2, Cpu::Irqs(None)) => None,
            (2, Cpu::Irqs(Some(e))) => Some(vec![(HARDWARE, INSTRUCTIONS), (RAW, e)]),
            _ => Some(vec![(HARDWARE, INSTRUCTIONS), (RAW, 0x420)]),
        };
        let needed = match sub {
            None => {
                check!(r.is_err(), "{what}: created although it is not supported there");
                let e = r.err().unwrap();
                check!(!e.is_empty(), "{what}: fails without a reason");
                ctx.count("unsupported_processors", 1);
                continue;
            }
            Some(n) => n,
        };
        let of = |k: usize| needed.iter().position(|n| opens.iter().any(|o| o.0 == k && (o.1, o.2) == *n));
        let failed = get(&c.perf_failed);
        let failed = if failed >= 0 { of(failed as usize) } else { None };
        // (states the page of an open can be seen in)
        let index = |k: usize| if zero == 1 { 0 } else { (get(&c.perf_index) + k as i64) % 60 + 1 };
        let states = |k: usize| {
            let mut v = vec![(caps, width, index(k))];
            if new.is_some() && get(&c.perf_upd_open) == k as i64 && get(&c.perf_updated) == 1 {
                v.push(new.unwrap());
            }
            v
        };
        match r {
            Err(e) => {
                let mut reasons: Vec<String> = Vec::new();
                if failed.is_some() {
                    reasons.push(raw_error(errno));
                }
                for o in &opens {
                    if of(o.0).is_some() {
                        for s in states(o.0) {
                            reasons.extend(page_problem(s.0, s.1, s.2));
                        }
                    }
                }
                check!(!reasons.is_empty(), "{what}: fails although the system offers it: {}", show(&e));
                check!(reasons.iter().any(|r| e.contains(r)), "{what}: the error says {} instead of naming one of {reasons:?}", show(&e));
                ctx.count(if failed.is_some() { "refusals_with_the_right_reason" } else { "unusable_pages_rejected" }, 1);
            }
            Ok(counter) => {
                check!(failed.is_none(), "{what}: created although the system refused it");
                let mut cands: Vec<Vec<usize>> = Vec::new();
                for n in &needed {
                    let k = match opens.iter().filter(|o| (o.1, o.2) == *n).last() {
                        Some(o) => o.0,
                        None => return viol(format!("{what}: created without opening the event type {} config {:#x}; opened were {opens:x?}", n.0, n.1)),
                    };
                    let bits = get(&c.perf_exclude[k]);
                    check!(get(&c.perf_flags[k]) >= 0, "{what}: event {:#x} is not opened for this thread on any processor", n.1);
                    check!(bits & 0x71 == 0x60, "{what}: event {:#x} is opened with attribute bits {bits:#x}, which do not count exactly user space", n.1);
                    let good: Vec<usize> = states(k).iter().filter(|s| page_problem(s.0, s.1, s.2).is_empty()).map(|s| s.2 as usize - 1).collect();
                    check!(!good.is_empty(), "{what}: created although its page says that it cannot be used");
                    cands.push(good);
                }
                let mut regs = Vec::new();
                for &a in &cands[0] {
                    if cands.len() == 1 {
                        regs.push((a, None));
                    } else {
                        for &b in &cands[1] {
                            regs.push((a, Some(b)));
                            small.insert(b);
                        }
                    }
                }
                let base = adv.clone();
                ctx.count(if name == 1 { "counters_created" } else { "corrected_counters_created" }, 1);
                if get(&c.perf_updated) == 1 {
                    ctx.count("created_around_a_page_update", 1);
                }
                // some time passes before the profiler is made
                step(&mut adv, &small, rng);
                put(&adv);
                let path = dir.join(format!("p{pi}"));
                let p = match calls.go("with_counter", || Profiler::with_counter(&path, counter).map_err(|e| e.to_string()))? {
                    Ok(p) => p,
                    Err(e) => return viol(format!("{what}: with_counter: {e}")),
                };
                profs.push(Prof { p, name, path: path.with_extension("mm_profdata"), regs, base, evs: vec![] });
            }
        }
    }
    // a register that one profiler subtracts and another counts cannot be small and large at once
    let counted: BTreeSet<usize> = profs.iter().flat_map(|p| p.regs.iter().map(|r| r.0)).collect();
    let clash = small.iter().any(|s| counted.contains(s));
    if !clash {
        for _ in 0..(if profs.is_empty() { 0 } else { rng.range(1, 12) }) {
            step(&mut adv, &small, rng);
            put(&adv);
            let i = rng.us(profs.len());
            let pr = &mut profs[i];
            let k = cut("alloc_string", || pr.p.alloc_string("k"))?;
            let id = EventId::from_label(k);
            if rng.chance(1, 2) {
                calls.go("record_instant_event", || pr.p.record_instant_event(k, id, 0))?;
                pr.evs.push((0, None, adv.clone()));
            } else {
                let from = adv.clone();
                let style = rng.chance(1, 2);
                let p = &pr.p;
                if style {
                    let g = calls.go("start_recording_interval_event", || p.start_recording_interval_event(k, id, 0))?;
                    step(&mut adv, &small, rng);
                    put(&adv);
                    calls.go("ending an interval", || drop(g))?;
                } else {
                    let d = calls.go("start_recording_interval_event_detached", || p.start_recording_interval_event_detached(k, id, 0))?;
                    step(&mut adv, &small, rng);
                    put(&adv);
                    calls.go("ending an interval", || p.finish_recording_interval_event(d))?;
                }
                pr.evs.push((1, Some(from), adv.clone()));
            }
            h.add(adv[0]);
        }
    }
    let reads = get(&c.rdpmc_seen);
    let n = profs.len();
    for pr in profs {
        let Prof { p, name, path, regs, base, evs } = pr;
        cut("dropping the profiler", || drop(p))?;
        let what = format!("counter {} {desc}", NAMES[name]);
        metadata(&path, name, &what)?;
        let pd = open_file(&path)?;
        let got = read_evs(&pd, pd.metadata().start_time)?;
        check!(got.len() == evs.len(), "{what}: {} of {} events", got.len(), evs.len());
        let value = |adv: &[u64], r: &(usize, Option<usize>)| adv[r.0] - base[r.0] - r.1.map_or(0, |b| adv[b] - base[b]);
        let wants: Vec<Vec<Pay>> = regs
            .iter()
            .map(|r| {
                evs.iter()
                    .map(|(_, from, to)| match from {
                        None => Pay::Instant(value(to, r)),
                        Some(f) => Pay::Interval(value(f, r), value(to, r)),
                    })
                    .collect()
            })
            .collect();
        let pays: Vec<Pay> = got.iter().map(|e| e.pay.clone()).collect();
        check!(wants.contains(&pays), "{what}: recorded values {} instead of {} (registers {regs:?})", clip(&format!("{pays:?}"), 300), clip(&format!("{:?}", wants[0]), 300));
        ctx.count("values_checked", evs.len() as u64);
    }
    ctx.count("counter_register_reads_emulated", reads as u64);
    ctx.count("processors_emulated", fake as u64);
    ctx.eval(Some(h.0));
    ctx.sample(|| format!("{desc}: {n} counters created"));
    Ok(())
}

/// Lets all registers advance; those in `small` never more than any other.
fn step(adv: &mut [u64], small: &BTreeSet<usize>, rng: &mut Rng) {
    let b = rng.below(40);
    let lo = rng.below(1 << b);
    for (i, a) in adv.iter_mut().enumerate() {
        *a += if small.contains(&i) { rng.below(lo + 1) } else { lo + rng.below(1 << 30) };
    }
}

fn run(ctx: &mut Ctx, _idx: u64, rng: &mut Rng) -> R {
    let c = match shim::ctl() {
        Some(c) => c,
        None => return viol("internal: the check runs without its shim"),
    };
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| assert!(shim::perf_install()));
    match rng.below(12) {
        0 => names(ctx, rng),
        1 => {
            c.reset();
            native(ctx, rng)
        }
        _ => {
            let r = emulated(ctx, c, rng);
            set(&c.perf, 0);
            r
        }
    }
}

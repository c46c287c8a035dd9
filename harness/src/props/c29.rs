//! C29: profilers create exactly their own file and never affect each other.
use super::*;
use crate::refdec;
use measureme::{EventId, EventIdBuilder, Profiler, StringId};
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::OsStrExt;
use std::sync::{Arc, Barrier};

pub fn props() -> Vec<Prop> {
    vec![prop("C29", 16000, run, "distinct scenarios: the path and what exists around it, or the profilers and the events each thread gave them")]
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Item {
    Dir,
    Link(PathBuf),
    File(u64, u64, u32),
}

/// Everything below a directory.
pub fn snapshot(dir: &Path) -> BTreeMap<PathBuf, Item> {
    use std::os::unix::fs::MetadataExt;
    let mut out = BTreeMap::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).unwrap() {
            let p = e.unwrap().path();
            let m = std::fs::symlink_metadata(&p).unwrap();
            let item = if m.is_symlink() {
                Item::Link(std::fs::read_link(&p).unwrap())
            } else if m.is_dir() {
                todo.push(p.clone());
                Item::Dir
            } else {
                let b = std::fs::read(&p).unwrap();
                Item::File(b.len() as u64, hash_bytes(&b), m.mode())
            };
            out.insert(p.strip_prefix(dir).unwrap().to_path_buf(), item);
        }
    }
    out
}

fn name(rng: &mut Rng) -> OsString {
    let mut v: Vec<u8> = match rng.below(8) {
        0 => rng.pick(&["a b", "-", "--help", "~", "*", "é", "漢字", "🦀 x", "\n", "con", "%s", "$HOME", "'", "\\", "mm_profdata", "a,b"]).as_bytes().to_vec(),
        1 => {
            let n = rng.range(1, 20);
            (0..n).map(|_| 1 + rng.below(255) as u8).collect()
        }
        2 => text1(rng, Text::Rich, 30).into_bytes(),
        3 => {
            let n = *rng.pick(&[200usize, 240, 243, 244]);
            vec![b'n'; n]
        }
        _ => format!("crate-{:07}", rng.below(10_000_000)).into_bytes(),
    };
    v.retain(|c| *c != b'/' && *c != b'.' && *c != 0);
    v.truncate(243);
    if v.is_empty() {
        v.push(b'x');
    }
    OsStr::from_bytes(&v).to_os_string()
}

/// Records a few events whose texts name the profiler.
fn note(p: &Profiler, who: &str, n: u64) {
    let k = p.alloc_string(&format!("kind of {who}")[..]);
    for i in 0..n {
        let l = p.alloc_string(&format!("{who} event {i}")[..]);
        p.record_integer_event(k, EventId::from_label(l), i as u32, i * i);
    }
}

fn noted(path: &Path, who: &str, n: u64, what: &str) -> R {
    let b = std::fs::read(path).unwrap();
    let d = match refdec::decode(&b) {
        Ok(d) => d,
        Err(e) => return viol(format!("{what}: the file is not a complete profile in the documented format: {e}")),
    };
    check!(d.raw.len() as u64 == n, "{what}: the file holds {} events of {n}", d.raw.len());
    let pd = open_file(path)?;
    let got = read_evs(&pd, pd.metadata().start_time)?;
    let want: Vec<Ev> = (0..n).map(|i| Ev { kind: format!("kind of {who}"), label: format!("{who} event {i}"), args: vec![], tid: i as u32, pay: Pay::Integer(i * i) }).collect();
    same_evs(&got, &want, what)
}

struct Cwd(PathBuf);
impl Drop for Cwd {
    fn drop(&mut self) {
        std::env::set_current_dir(&self.0).unwrap();
    }
}

/// Acts as an unprivileged user while it lives, so that nothing outside the scratch directory can be written.
struct Nobody;
impl Nobody {
    fn new() -> Option<Nobody> {
        unsafe {
            if libc::geteuid() != 0 {
                return Some(Nobody);
            }
            (libc::setegid(65534) == 0 && libc::seteuid(65534) == 0).then_some(Nobody)
        }
    }
}
impl Drop for Nobody {
    fn drop(&mut self) {
        unsafe {
            libc::seteuid(0);
            libc::setegid(0);
        }
    }
}

fn chmod(p: &Path, m: u32) {
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(p, std::fs::Permissions::from_mode(m)).unwrap();
}

/// One profiler for one path.
fn path_case(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let dir = ctx.dir("c29");
    let root = dir.join("r");
    std::fs::create_dir(&root).unwrap();
    // neighbours
    for i in 0..rng.below(4) {
        let f = root.join(*rng.pick(&["other.mm_profdata", "crate.events", "crate.string_data", "crate", "other", "notes.txt"]));
        std::fs::write(&f, vec![i as u8; rng.below(300) as usize]).unwrap();
    }
    let mut parent = PathBuf::new();
    let missing = rng.chance(1, 2);
    for _ in 0..rng.below(4) {
        parent.push(name(rng));
        if rng.chance(1, 12) {
            parent.push(".");
        }
    }
    if !missing {
        let p: PathBuf = root.join(&parent).components().collect();
        std::fs::create_dir_all(p).unwrap();
        if rng.chance(1, 4) && parent.components().next().is_some() {
            let l = root.join("link");
            std::os::unix::fs::symlink(root.join(&parent), &l).unwrap();
            parent = PathBuf::from("link");
        }
    }
    let leaf = name(rng);
    let relative = rng.chance(1, 3);
    let mut stem = parent.join(&leaf);
    let mut must = Some(true);
    let file = |stem: &Path| {
        let mut n = stem.file_name().unwrap().to_os_string();
        n.push(".mm_profdata");
        stem.with_file_name(n)
    };
    let mut state = "nothing there before".to_string();
    let mut special = false;
    match rng.below(14) {
        0 => {
            // an older file of any size, which must be replaced
            let n = *rng.pick(&[0usize, 1, 100, 5000, 600_000]);
            std::fs::create_dir_all(root.join(&parent).components().collect::<PathBuf>()).unwrap();
            std::fs::write(root.join(file(&stem)), vec![0xEEu8; n]).unwrap();
            state = format!("an older file of {n} bytes there");
        }
        1 => {
            std::fs::create_dir_all(root.join(&parent).components().collect::<PathBuf>()).unwrap();
            let f = root.join(file(&stem));
            {
                let p = cut("Profiler::new", || Profiler::new(root.join(&stem)).map_err(|e| e.to_string()))?;
                match p {
                    Ok(p) => note(&p, "older", rng.logsize(3000)),
                    Err(e) => return viol(format!("Profiler::new: {e}")),
                }
            }
            state = format!("an older profile of {} bytes there", std::fs::metadata(&f).map(|m| m.len()).unwrap_or(0));
        }
        2 => {
            std::fs::create_dir_all(root.join(file(&stem))).unwrap();
            std::fs::write(root.join(file(&stem)).join("inside"), b"x").unwrap();
            must = Some(false);
            state = "a directory there".into();
        }
        3 => {
            // a parent that is a file
            std::fs::write(root.join("plain"), b"plain file").unwrap();
            stem = PathBuf::from("plain").join(&leaf);
            if rng.chance(1, 2) {
                stem = PathBuf::from("plain/sub").join(&leaf);
            }
            must = Some(false);
            state = "a file in the place of a parent directory".into();
        }
        4 => {
            stem = parent.join(OsStr::from_bytes(&vec![b'l'; rng.range(250, 600) as usize]));
            must = Some(false);
            state = "a name that is too long".into();
        }
        5 => {
            stem = parent.join(OsStr::from_bytes(b"a\0b"));
            must = Some(false);
            state = "a name with a zero byte".into();
        }
        6 => {
            stem = PathBuf::from(*rng.pick(&["", "/", "//", ".", "..", "./", "sub/..", "sub/../..", "/..", "./."]));
            std::fs::create_dir_all(root.join("sub")).unwrap();
            must = None;
            special = true;
        }
        7 => {
            // a path with a trailing separator, or odd separators
            let mut s = stem.into_os_string();
            s.push(*rng.pick(&["/", "//", "/."]));
            stem = PathBuf::from(s);
            must = None;
        }
        8 => {
            let mut s = OsString::from(".///");
            s.push(&stem);
            stem = PathBuf::from(s);
        }
        9 => {
            // a hidden name or one with dots inside: the file may be named either way
            let mut s = leaf.clone();
            s.push(*rng.pick(&[".1", ".mm_profdata", ".tar.gz"]));
            stem = parent.join(s);
            must = None;
        }
        10 => {
            // a directory nobody may write to
            std::fs::create_dir_all(root.join("locked")).unwrap();
            chmod(&root.join("locked"), 0o555);
            stem = PathBuf::from("locked").join(&leaf);
            if rng.chance(1, 2) {
                stem = PathBuf::from("locked/deeper").join(&leaf);
            }
            must = Some(false);
            special = true;
            state = "a directory without permission".into();
        }
        _ => {}
    }
    let what = format!("profiler for the path {:?} ({state})", stem);
    let before = snapshot(&root);
    let back = Cwd(std::env::current_dir().unwrap());
    std::env::set_current_dir(&root).unwrap();
    // special paths are never made absolute, so that they mean what they say
    let given = if special && !stem.starts_with("locked") || relative { stem.clone() } else { root.join(&stem) };
    let n = rng.logsize(50);
    let res = {
        let user = if special {
            for p in [&root, &dir] {
                chmod(p, 0o777);
            }
            // the way there must be open, too
            match Nobody::new() {
                Some(u) if std::fs::read_dir(".").is_ok() => Some(u),
                _ => return Ok(()),
            }
        } else {
            None
        };
        let r = cut(&what, || match Profiler::new(&given) {
            Ok(p) => {
                note(&p, "it", n);
                drop(p);
                Ok(())
            }
            Err(e) => Err(e.to_string()),
        });
        drop(user);
        r
    };
    drop(back);
    if root.join("locked").exists() {
        chmod(&root.join("locked"), 0o755);
    }
    let res = res?;
    let after = snapshot(&root);
    let changed: Vec<&PathBuf> = before.iter().filter(|(p, i)| after.get(*p) != Some(i)).map(|(p, _)| p).collect();
    let added: Vec<&PathBuf> = after.iter().filter(|(p, i)| !before.contains_key(*p) && **i != Item::Dir).map(|(p, _)| p).collect();
    let new_dirs: Vec<&PathBuf> = after.iter().filter(|(p, i)| !before.contains_key(*p) && **i == Item::Dir).map(|(p, _)| p).collect();
    let resolve = |p: &Path| -> PathBuf { p.components().filter(|c| !matches!(c, std::path::Component::CurDir)).collect() };
    for d in &new_dirs {
        check!(resolve(&stem).starts_with(d), "{what}: created the directory {d:?}");
    }
    match &res {
        Err(e) => {
            check!(must != Some(true), "{what}: fails: {e}");
            check!(!e.is_empty(), "{what}: fails without a reason");
            check!(added.is_empty() && changed.is_empty(), "{what}: failed ({e}), but created {added:?} and changed {changed:?}");
            ctx.count("failures_without_effect", 1);
        }
        Ok(()) => {
            check!(must != Some(false), "{what}: reports success");
            let mut hit = added.clone();
            hit.extend(&changed);
            check!(hit.len() == 1, "{what}: created {added:?} and changed {changed:?} instead of one file");
            let f = hit[0].clone();
            if must == Some(true) {
                let w = resolve(&file(&stem));
                let w = if w.starts_with("link") { std::fs::canonicalize(root.join("link")).unwrap().join(w.file_name().unwrap()).strip_prefix(std::fs::canonicalize(&root).unwrap()).unwrap().to_path_buf() } else { w };
                check!(f == w, "{what}: the file is {f:?}, not {w:?}");
            }
            check!(f.to_string_lossy().ends_with("mm_profdata"), "{what}: the file is {f:?}");
            noted(&root.join(&f), "it", n, &what)?;
            ctx.count("files_created", 1);
        }
    }
    let mut h = Hasher64::new();
    h.add(hash_bytes(stem.as_os_str().as_bytes()));
    h.add(hash_bytes(state.as_bytes()));
    ctx.eval(Some(h.0));
    ctx.sample(|| format!("{what}: {}", if res.is_ok() { "created" } else { "refused" }));
    Ok(())
}

/// Several profilers at once, used by several threads.
fn many(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let dir = ctx.dir("c29");
    let np = rng.range(2, 6) as usize;
    let nt = rng.range(1, 5) as usize;
    let mut stems: Vec<PathBuf> = Vec::new();
    for i in 0..np {
        stems.push(match rng.below(3) {
            0 => dir.join(format!("prof{i}")),
            1 => dir.join(format!("d{i}/deep/prof")),
            _ => dir.join(format!("common/prof-{i}")),
        });
    }
    // created one after the other or all at once
    let made: Vec<Result<Profiler, String>> = if rng.chance(1, 2) {
        let b = Arc::new(Barrier::new(np));
        let hs: Vec<_> = stems
            .iter()
            .cloned()
            .map(|s| {
                let b = b.clone();
                std::thread::spawn(move || {
                    b.wait();
                    traps(|| Profiler::new(&s).map_err(|e| e.to_string())).and_then(|r| r)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    } else {
        stems.iter().map(|s| traps(|| Profiler::new(s).map_err(|e| e.to_string())).and_then(|r| r)).collect()
    };
    let mut ps: Vec<Arc<Profiler>> = Vec::new();
    for (s, p) in stems.iter().zip(made) {
        match p {
            Ok(p) => ps.push(Arc::new(p)),
            Err(e) => return viol(format!("{np} profilers: creating the one for {s:?}: {e}")),
        }
    }
    let long = rng.chance(1, 10);
    let ops = rng.range(1, if long { 8000 } else { 250 });
    // log[thread][profiler] = events
    let mut hs = Vec::new();
    for t in 0..nt {
        let (ps, mut rng) = (ps.clone(), rng.fork());
        hs.push(std::thread::spawn(move || -> R<(Vec<Vec<Ev>>, u64)> {
            let mut log: Vec<Vec<Ev>> = vec![Vec::new(); ps.len()];
            let mut ids: Vec<Vec<(StringId, String)>> = vec![Vec::new(); ps.len()];
            let mut h = Hasher64::new();
            let mut virt = 1 + t as u64 * 1_000_000;
            for op in 0..ops {
                let k = rng.us(ps.len());
                let p = &ps[k];
                h.add(k as u64);
                if ids[k].len() < 2 || rng.chance(1, 3) {
                    let s = if rng.chance(1, 40) { text_len(&mut rng, Text::Rich, 20_000) } else { format!("string {op} of thread {t} in profiler {k}") };
                    let id = cut("alloc_string", || p.alloc_string(&s[..]))?;
                    let id = if rng.chance(1, 3) {
                        virt += 1;
                        let v = StringId::new_virtual(virt);
                        cut("map_virtual_to_concrete_string", || p.map_virtual_to_concrete_string(v, id))?;
                        v
                    } else {
                        id
                    };
                    ids[k].push((id, s));
                    continue;
                }
                let (a, b) = (rng.pick(&ids[k]).clone(), rng.pick(&ids[k]).clone());
                let (id, args) = if rng.chance(1, 3) {
                    (cut("event id", || EventIdBuilder::new(p).from_label_and_arg(a.0, b.0))?, vec![b.1.clone()])
                } else {
                    (EventId::from_label(a.0), vec![])
                };
                let v = rng.below(1 << 40);
                cut("record_integer_event", || p.record_integer_event(b.0, id, t as u32, v))?;
                log[k].push(Ev { kind: b.1, label: a.1, args, tid: t as u32, pay: Pay::Integer(v) });
            }
            Ok((log, h.0))
        }));
    }
    let mut logs = Vec::new();
    let mut h = Hasher64::new();
    for x in hs {
        match x.join() {
            Ok(r) => {
                let (l, k) = r?;
                h.add(k);
                logs.push(l);
            }
            Err(_) => return viol("a recording thread panicked"),
        }
    }
    // ended in any order; each file must be complete as soon as its own profiler is gone
    let mut order: Vec<usize> = (0..np).collect();
    rng.shuffle(&mut order);
    let mut ps: Vec<Option<Arc<Profiler>>> = ps.into_iter().map(Some).collect();
    for &k in &order {
        cut("dropping a profiler", || ps[k] = None)?;
        let what = format!("profiler {k} of {np}, used by {nt} threads");
        let f = stems[k].with_extension("mm_profdata");
        let d = match refdec::decode(&std::fs::read(&f).unwrap_or_default()) {
            Ok(d) => d,
            Err(e) => return viol(format!("{what}: its file is not a complete profile: {e}")),
        };
        let total: usize = logs.iter().map(|l| l[k].len()).sum();
        check!(d.raw.len() == total, "{what}: its file holds {} events of {total}", d.raw.len());
        let pd = open_file(&f)?;
        let got = read_evs(&pd, pd.metadata().start_time)?;
        check!(got.len() == total, "{what}: {} events are read of {total}", got.len());
        for t in 0..nt {
            let mine: Vec<Ev> = got.iter().filter(|e| e.tid == t as u32).cloned().collect();
            same_evs(&mine, &logs[t][k], &format!("{what}, thread {t}"))?;
        }
        ctx.count("events", total as u64);
    }
    let mut files = snapshot(&dir);
    for s in &stems {
        check!(files.remove(s.with_extension("mm_profdata").strip_prefix(&dir).unwrap()).is_some(), "the file for {s:?} is gone");
    }
    files.retain(|_, i| *i != Item::Dir);
    check!(files.is_empty(), "{np} profilers left other files: {:?}", files.keys().collect::<Vec<_>>());
    ctx.count("concurrent_profilers", np as u64);
    ctx.count("scenarios_with_several_profilers", 1);
    ctx.eval(Some(h.0));
    Ok(())
}

fn run(ctx: &mut Ctx, _idx: u64, rng: &mut Rng) -> R {
    if rng.chance(1, 5) {
        many(ctx, rng)
    } else {
        path_case(ctx, rng)
    }
}

//! C36: results depend on the profiles and the options alone.
use super::*;
use crate::enc::{self, Enc, Paging};
use crate::props::c16::table_safe;
use crate::tools::{run_io, Out};
use std::collections::BTreeMap;
use std::fs::File;
use std::io::Read;
use std::os::fd::{AsRawFd, FromRawFd};
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};

pub fn props() -> Vec<Prop> {
    vec![prop("C36", 7000, run, "distinct (profiles, tool invocation, pair of circumstances) and (profiles, sequence of openings)")]
}

const NAMES: [&str; 3] = ["a", "b-1", "c c"];

/// An argument of a tool: text, or the path of an input.
#[derive(Clone, Debug)]
enum Arg {
    T(String),
    /// input, and whether the file itself is named
    In(usize, bool),
    /// the directory of the inputs
    Dir,
}

/// What a run gives: exit, output, and the files it made by place and name.
#[derive(PartialEq, Debug)]
struct Result_ {
    code: Option<i32>,
    out: Vec<String>,
    complains: bool,
    files: BTreeMap<String, Vec<String>>,
}

/// Text without the sequences that choose attributes at a terminal.
fn plain_text(s: &str) -> String {
    let mut r = String::with_capacity(s.len());
    let mut i = s.chars().peekable();
    while let Some(c) = i.next() {
        match (c, i.peek()) {
            ('\u{1b}', Some('[')) => {
                i.next();
                while i.next_if(|c| c.is_ascii_digit() || *c == ';' || *c == '?').is_some() {}
                i.next_if(|c| c.is_ascii_alphabetic());
            }
            ('\u{1b}', Some('(')) => {
                i.next();
                i.next();
            }
            ('\u{f}', _) => {}
            _ => r.push(c),
        }
    }
    r
}

/// Text without regard to the order of lines, elements and members.
fn normal(name: &str, b: &[u8]) -> Vec<String> {
    fn sorted(v: &serde_json::Value) -> String {
        match v {
            serde_json::Value::Array(a) => {
                let mut x: Vec<String> = a.iter().map(sorted).collect();
                x.sort();
                format!("[{}]", x.join(","))
            }
            serde_json::Value::Object(o) => {
                let mut x: Vec<String> = o.iter().map(|(k, v)| format!("{k:?}:{}", sorted(v))).collect();
                x.sort();
                format!("{{{}}}", x.join(","))
            }
            v => v.to_string(),
        }
    }
    if name.ends_with(".json") {
        if let Ok(v) = serde_json::from_slice(b) {
            return vec![sorted(&v)];
        }
    }
    if name.ends_with(".mm_profdata") {
        return vec![format!("{} bytes {:x}", b.len(), hash_bytes(b))];
    }
    let t = plain_text(&String::from_utf8_lossy(b));
    let mut l: Vec<String> = t
        .split('\n')
        .map(|l| {
            // the colours of a flame graph are arbitrary
            let mut l = l.to_string();
            let mut from = 0;
            while let Some(i) = l[from..].find("fill=\"rgb(") {
                let i = from + i;
                let Some(e) = l[i..].find(")\"") else { break };
                l.replace_range(i..i + e + 2, "");
                from = i;
            }
            l
        })
        .collect();
    if name.ends_with(".svg") {
        // one line may hold many frames
        l = l.iter().flat_map(|x| x.split_inclusive("</g>")).map(|x| x.to_string()).collect();
    }
    l.sort();
    l
}

struct Place {
    inputs: PathBuf,
    cwd: PathBuf,
}

/// How the inputs are spelled.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Spell {
    Absolute,
    Relative,
    Linked,
    Roundabout,
    /// A directory with a link to every profile.
    FileLinks,
}

fn links_of(root: &Path, inputs: &Path) -> PathBuf {
    root.join(format!("links to {}", inputs.file_name().unwrap().to_str().unwrap()))
}

/// Where "beside the input" is.
fn beside_of(root: &Path, inputs: &Path, s: Spell) -> PathBuf {
    if s == Spell::FileLinks {
        links_of(root, inputs)
    } else {
        inputs.into()
    }
}

fn make_links(root: &Path, inputs: &Path) {
    let _ = std::os::unix::fs::symlink(inputs, root.join(format!("link to {}", inputs.file_name().unwrap().to_str().unwrap())));
    let l = links_of(root, inputs);
    let _ = std::fs::create_dir_all(&l);
    for n in NAMES {
        let n = format!("{n}.mm_profdata");
        let _ = std::os::unix::fs::symlink(inputs.join(&n), l.join(n));
    }
}

/// The super user, but not allowed to disregard permissions.
fn heed_permissions() {
    unsafe {
        for cap in [1, 2, 3] {
            libc::prctl(libc::PR_CAPBSET_DROP, cap as libc::c_ulong, 0, 0, 0);
        }
    }
}

fn path_of(p: &Place, s: Spell, root: &Path) -> PathBuf {
    match s {
        Spell::Absolute => p.inputs.clone(),
        Spell::Relative => {
            if p.cwd == p.inputs {
                PathBuf::from(".")
            } else {
                PathBuf::from("..").join(p.inputs.file_name().unwrap())
            }
        }
        Spell::Linked => root.join(format!("link to {}", p.inputs.file_name().unwrap().to_str().unwrap())),
        Spell::FileLinks => links_of(root, &p.inputs),
        Spell::Roundabout => {
            let n = p.inputs.file_name().unwrap();
            p.inputs.join("..").join(n).join(".").join("..").join(n)
        }
    }
}

fn args_of(args: &[Arg], p: &Place, s: Spell, root: &Path) -> Vec<std::ffi::OsString> {
    let d = path_of(p, s, root);
    args.iter()
        .map(|a| match a {
            Arg::T(t) => t.into(),
            Arg::In(i, full) => {
                let n = if *full { format!("{}.mm_profdata", NAMES[*i]) } else { NAMES[*i].to_string() };
                if s == Spell::Relative && d == Path::new(".") && !n.starts_with('-') {
                    n.into()
                } else {
                    d.join(n).into()
                }
            }
            Arg::Dir => d.clone().into(),
        })
        .collect()
}

fn files_in(d: &Path) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    if let Ok(r) = std::fs::read_dir(d) {
        for e in r.flatten() {
            let n = e.file_name().to_string_lossy().into_owned();
            let b = if e.path().is_file() { std::fs::read(e.path()).unwrap_or_default() } else { b"<directory>".to_vec() };
            m.insert(n, b);
        }
    }
    m
}

/// A time that tells what was there before a run.
fn stamp() -> SystemTime {
    UNIX_EPOCH + Duration::from_secs(1_000_000_007)
}

fn is_output(n: &str) -> bool {
    !NAMES.iter().any(|x| n == format!("{x}.mm_profdata"))
}

fn stamped(d: &Path) -> BTreeMap<String, Vec<u8>> {
    let m = files_in(d);
    for n in m.keys().filter(|n| is_output(n)) {
        if let Ok(f) = File::open(d.join(n)) {
            let _ = f.set_modified(stamp());
        }
    }
    m
}

/// Written since it was stamped.
fn is_new(d: &Path, n: &str) -> bool {
    is_output(n) && d.join(n).is_file() && std::fs::metadata(d.join(n)).and_then(|m| m.modified()).is_ok_and(|t| t != stamp())
}

fn invocation(rng: &mut Rng) -> (&'static str, Vec<Arg>, Vec<String>) {
    let f = |rng: &mut Rng, i: usize| Arg::In(i, rng.chance(1, 2));
    let t = |s: &str| Arg::T(s.to_string());
    let i = rng.us(3);
    let j = (i + 1 + rng.us(2)) % 3;
    match rng.below(10) {
        0 => ("summarize", vec![t("summarize"), f(rng, i)], vec![]),
        1 => ("summarize", vec![t("summarize"), f(rng, i), t("-p"), t(&format!("{}", rng.below(40)))], vec![]),
        2 => ("summarize", vec![t("summarize"), f(rng, i), t("--json")], vec![format!("next/{}.json", NAMES[i])]),
        3 => ("summarize", vec![t("diff"), f(rng, i), f(rng, j)], vec![]),
        4 => ("summarize", vec![t("diff"), f(rng, i), f(rng, j), t("--json")], vec![format!("next/{}.json", NAMES[j])]),
        5 => ("summarize", vec![t("aggregate"), f(rng, i), f(rng, j)], vec![]),
        6 => {
            let mut a = vec![f(rng, i)];
            if rng.chance(1, 2) {
                a.push(f(rng, j));
            }
            if rng.chance(1, 3) {
                a = vec![t("--dir"), Arg::Dir];
            }
            if rng.chance(1, 2) {
                a.push(t("--collapse-threads"));
            }
            if rng.chance(1, 3) {
                a.push(t("--minimum-duration"));
                a.push(t(&rng.logsize(1000).to_string()));
            }
            ("crox", a, vec!["here/chrome_profiler.json".into()])
        }
        7 => {
            let mut a = vec![f(rng, i)];
            if rng.chance(1, 3) {
                a.extend([t("-t"), t(&rng.below(4).to_string())]);
            }
            ("mmview", a, vec![])
        }
        8 if rng.chance(1, 2) => ("mmedit", vec![t("truncate"), Arg::In(i, true)], vec![format!("next/{}.truncated.mm_profdata", NAMES[i])]),
        8 => ("stack_collapse", vec![f(rng, i)], vec!["here/out.stacks_folded".into()]),
        _ => ("flamegraph", vec![f(rng, i)], vec!["here/rustc.svg".into()]),
    }
}

/// Stands for a directory with other profiles of the same names.
const DECOYS: &str = "@decoys";

const ENV: &[(&str, &[&str])] = &[
    ("LANG", &["C", "C.UTF-8", "de_DE.UTF-8", "tr_TR", "\u{fffd}"]),
    ("LC_ALL", &["C", "POSIX", "fa_IR.UTF-8", "ja_JP.SJIS"]),
    ("LC_NUMERIC", &["de_DE.UTF-8"]),
    ("TZ", &["UTC", "Asia/Kathmandu", "America/St_Johns", ":bogus"]),
    ("TERM", &["dumb", "xterm-256color", "vt100", ""]),
    ("COLUMNS", &["1", "20", "80", "10000", "x"]),
    ("LINES", &["1", "5"]),
    ("NO_COLOR", &["1"]),
    ("CLICOLOR_FORCE", &["1"]),
    ("FORCE_COLOR", &["3"]),
    ("COLORTERM", &["truecolor"]),
    ("RUST_LOG", &["trace", "off", "debug,x=info"]),
    ("RUST_BACKTRACE", &["0", "1", "full"]),
    ("RUST_MIN_STACK", &["100000", "30000000"]),
    ("HOME", &["/nonexistent", "", ".", DECOYS, DECOYS, DECOYS]),
    ("TMPDIR", &["/nonexistent", "", ".", DECOYS]),
    ("XDG_DATA_HOME", &[DECOYS]),
    ("XDG_CACHE_HOME", &[DECOYS]),
    ("CDPATH", &[DECOYS]),
    ("USER", &["nobody", ""]),
    ("PWD", &["/", "nowhere", DECOYS]),
    ("OLDPWD", &["/tmp"]),
    ("SHELL", &["/bin/false"]),
    ("PATH", &["", "/usr/bin:/bin"]),
    ("SOURCE_DATE_EPOCH", &["0", "1700000000"]),
    ("DEBUG", &["1"]),
    ("CI", &["true"]),
    ("RAYON_NUM_THREADS", &["1"]),
    ("MALLOC_PERTURB_", &["165"]),
];

struct How {
    spell: Spell,
    cwd: usize,
    env: Vec<(&'static str, &'static str)>,
    stdin: u64,
    tty: bool,
    limits: bool,
    read_only: bool,
    alias: bool,
    text: String,
}

fn circumstances(rng: &mut Rng, plain: bool) -> How {
    let mut h = How { spell: Spell::Absolute, cwd: 0, env: vec![("PATH", "/usr/bin:/bin"), ("RUST_BACKTRACE", "0")], stdin: 0, tty: false, limits: false, read_only: false, alias: false, text: String::new() };
    if plain {
        h.text = "plainly".into();
        return h;
    }
    h.spell = *rng.pick(&[Spell::Absolute, Spell::Relative, Spell::Relative, Spell::Linked, Spell::FileLinks, Spell::Roundabout]);
    h.cwd = rng.us(3);
    let mut said = vec![format!("{:?} paths from {}", h.spell, ["the first directory", "another directory", "the profiles' directory"][h.cwd])];
    if rng.chance(2, 3) {
        h.env.clear();
        let n = rng.logsize(ENV.len() as u64);
        for _ in 0..n {
            let (k, v) = rng.pick(ENV);
            if !h.env.iter().any(|x| x.0 == *k) {
                h.env.push((k, *rng.pick(v)));
            }
        }
        said.push(format!("environment {:?}", h.env));
    }
    if rng.chance(1, 3) {
        h.stdin = rng.range(1, 3);
        said.push(["", "junk on standard input", "closed standard input", "an empty file as standard input"][h.stdin as usize].into());
    }
    if rng.chance(1, 6) {
        h.tty = true;
        said.push("at a terminal".into());
    }
    if rng.chance(1, 4) {
        h.limits = true;
        said.push("12 open files, umask 077".into());
    }
    if rng.chance(1, 4) {
        h.read_only = true;
        said.push("profiles that cannot be written".into());
    }
    if rng.chance(1, 5) {
        h.alias = true;
        said.push("the program under another name".into());
    }
    h.text = said.join(", ");
    h
}

/// Runs at a terminal of 20 columns.
fn run_tty(mut c: Command, what: &str) -> R<Out> {
    unsafe {
        let m = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        assert!(m >= 0 && libc::grantpt(m) == 0 && libc::unlockpt(m) == 0, "no terminal");
        let mut name = [0 as libc::c_char; 128];
        assert_eq!(libc::ptsname_r(m, name.as_mut_ptr(), name.len()), 0);
        let s = libc::open(name.as_ptr(), libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        assert!(s >= 0, "no terminal");
        let (mut master, slave) = (File::from_raw_fd(m), File::from_raw_fd(s));
        let mut t: libc::termios = std::mem::zeroed();
        libc::tcgetattr(slave.as_raw_fd(), &mut t);
        libc::cfmakeraw(&mut t);
        libc::tcsetattr(slave.as_raw_fd(), libc::TCSANOW, &t);
        let w = libc::winsize { ws_row: 5, ws_col: 20, ws_xpixel: 0, ws_ypixel: 0 };
        libc::ioctl(slave.as_raw_fd(), libc::TIOCSWINSZ, &w);
        c.stdin(slave.try_clone().unwrap()).stdout(slave).stderr(Stdio::piped());
        c.pre_exec(|| {
            let l = libc::rlimit { rlim_cur: 120, rlim_max: 125 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
        let mut ch = c.spawn().unwrap_or_else(|e| panic!("cannot start {what}: {e}"));
        drop(c);
        let mut se = ch.stderr.take().unwrap();
        let t2 = std::thread::spawn(move || {
            let mut v = Vec::new();
            let _ = se.read_to_end(&mut v);
            v
        });
        let mut out = Vec::new();
        let mut buf = [0u8; 65536];
        // reading fails when the last writer is gone
        while let Ok(n) = master.read(&mut buf) {
            if n == 0 {
                break;
            }
            out.extend_from_slice(&buf[..n]);
        }
        let st = ch.wait().expect("wait");
        use std::os::unix::process::ExitStatusExt;
        Ok(Out { code: st.code(), signal: st.signal(), stdout: out, stderr: t2.join().unwrap() })
    }
}

struct Setup<'a> {
    root: &'a Path,
    tools: PathBuf,
    name: &'static str,
    args: &'a [Arg],
    /// Makes a file beside its input.
    beside: bool,
    /// The inputs are in use by other runs at the same time.
    shared: bool,
}

fn once(s: &Setup, h: &How, inputs: &Path, cwd: &Path) -> R<Result_> {
    let place = Place { inputs: inputs.into(), cwd: cwd.into() };
    let a = args_of(s.args, &place, h.spell, s.root);
    let what = format!("{} {a:?} {}", s.name, h.text);
    let exe = if h.alias { s.root.join("bin").join(format!("{} 2", s.name)) } else { s.tools.join(s.name) };
    if h.alias {
        let _ = std::os::unix::fs::symlink(s.tools.join(s.name), &exe);
    }
    let beside = beside_of(s.root, inputs, h.spell);
    let before = (stamped(cwd), stamped(&beside));
    let read_only = h.read_only && !s.shared && cwd != inputs;
    let mode = |dir: u32, file: u32| {
        use std::os::unix::fs::PermissionsExt;
        for n in NAMES {
            std::fs::set_permissions(inputs.join(format!("{n}.mm_profdata")), std::fs::Permissions::from_mode(file)).unwrap();
        }
        let writes_here = !s.beside || h.spell == Spell::FileLinks;
        std::fs::set_permissions(inputs, std::fs::Permissions::from_mode(if writes_here { dir } else { 0o755 })).unwrap();
    };
    let mut c = Command::new(&exe);
    c.args(&a).current_dir(cwd).env_clear();
    for (k, v) in &h.env {
        if *v == DECOYS {
            c.env(k, s.root.join("bin"));
        } else {
            c.env(k, v);
        }
    }
    if h.limits {
        unsafe {
            c.pre_exec(|| {
                let l = libc::rlimit { rlim_cur: 12, rlim_max: 12 };
                libc::setrlimit(libc::RLIMIT_NOFILE, &l);
                libc::umask(0o077);
                Ok(())
            });
        }
    }
    if read_only {
        mode(0o555, 0o444);
        unsafe {
            c.pre_exec(|| {
                heed_permissions();
                Ok(())
            });
        }
    }
    let o = if h.tty {
        run_tty(c, &what)?
    } else {
        let stdin = match h.stdin {
            1 => {
                let p = s.root.join("junk");
                std::fs::write(&p, b"MMPD\x09\0\0\0 y\nyes\n\0").unwrap();
                Stdio::from(File::open(p).unwrap())
            }
            2 => {
                unsafe {
                    c.pre_exec(|| {
                        libc::close(0);
                        Ok(())
                    });
                }
                Stdio::null()
            }
            3 => {
                let p = s.root.join("empty");
                std::fs::write(&p, b"").unwrap();
                Stdio::from(File::open(p).unwrap())
            }
            _ => Stdio::null(),
        };
        run_io(c, &what, stdin)?
    };
    if read_only {
        mode(0o755, 0o644);
    }
    check!(o.signal.is_none(), "{what}: killed by a signal: {}", o.brief());
    let mut files = BTreeMap::new();
    let places: &[(&str, &Path, &BTreeMap<String, Vec<u8>>)] =
        if cwd == beside { &[("any", cwd, &before.0)] } else { &[("here", cwd, &before.0), ("next", &beside, &before.1)] };
    for (w, d, was) in places {
        for (n, b) in files_in(d) {
            if was.get(&n) != Some(&b) || is_new(d, &n) {
                files.insert(format!("{w}/{n}"), normal(&n, &b));
            }
        }
    }
    Ok(Result_ { code: o.code, out: normal("", &o.stdout), complains: !o.stderr.is_empty(), files })
}

fn clean(d: &Path, keep_inputs: bool) {
    for (n, _) in files_in(d) {
        if !(keep_inputs && NAMES.iter().any(|x| n == format!("{x}.mm_profdata"))) {
            let _ = std::fs::remove_file(d.join(n));
        }
    }
}

/// The same result, whatever directory is called what.
fn same(a: &Result_, b: &Result_, how: &str, what: &str) -> R {
    let brief = |r: &Result_| format!("exit {:?}, {} lines, files {:?}", r.code, r.out.len(), r.files.keys().collect::<Vec<_>>());
    check!(a.code == b.code, "{what}: exit {:?}, but {how}: {:?}", a.code, b.code);
    if a.code == Some(0) {
        let d = a.out.iter().zip(&b.out).find(|(x, y)| x != y);
        check!(a.out == b.out, "{what}: prints something else {how}: {} instead of {}; {} / {}", d.map_or(String::new(), |d| show(d.1)), d.map_or(String::new(), |d| show(d.0)), brief(a), brief(b));
        let strip = |r: &Result_| r.files.iter().map(|(k, v)| (k.split_once('/').unwrap().1.to_string(), v.clone())).collect::<BTreeMap<_, _>>();
        let (x, y) = (strip(a), strip(b));
        check!(x.keys().eq(y.keys()), "{what}: makes the files {:?}, but {how}: {:?}", a.files.keys(), b.files.keys());
        for (k, v) in &x {
            let d = v.iter().zip(&y[k]).find(|(p, q)| p != q);
            check!(*v == y[k], "{what}: {k} is different {how}: {} instead of {}", d.map_or(String::new(), |d| show(d.1)), d.map_or(String::new(), |d| show(d.0)));
        }
    } else {
        check!(a.complains == b.complains, "{what}: message only sometimes ({how})");
    }
    Ok(())
}

fn expected(r: &Result_, want: &[String], cwd_is_inputs: bool, what: &str) -> R {
    if r.code != Some(0) {
        return Ok(());
    }
    let got: Vec<&str> = r.files.keys().map(|k| if cwd_is_inputs { k.split_once('/').unwrap().1 } else { &k[..] }).collect();
    let want: Vec<&str> = want.iter().map(|k| if cwd_is_inputs { k.split_once('/').unwrap().1 } else { &k[..] }).collect();
    check!(got == want, "{what}: makes the files {got:?} instead of {want:?}");
    Ok(())
}

fn run(ctx: &mut Ctx, idx: u64, rng: &mut Rng) -> R {
    if idx % 3 == 2 {
        return openings(ctx, rng);
    }
    let root = ctx.dir("c36");
    let dirs = ["w0", "w one", "in"].map(|d| root.join(d));
    for d in &dirs {
        std::fs::create_dir_all(d).unwrap();
    }
    let inputs = dirs[2].clone();
    make_links(&root, &inputs);
    let o = GenOpts { text: Text::Line, max_events: *rng.pick(&[6, 40, 120]), max_threads: *rng.pick(&[1, 3]), ..GenOpts::default() };
    let mut t = gen_trace(rng, &o);
    table_safe(&mut t, rng);
    let mut key = Hasher64::new();
    for n in NAMES {
        let v = *rng.pick(&[8u32, 9, 9]);
        let b = enc::file(&t, v, Enc::Mixed, *rng.pick(&[Paging::Library, Paging::Random]), rng);
        key.bytes(&b);
        write_file(&inputs, &format!("{n}.mm_profdata"), &b);
        if rng.chance(2, 3) {
            t = gen_trace(rng, &o);
            table_safe(&mut t, rng);
        }
        t.pid = rng.below(1 << 32) as u32;
    }
    // other profiles of the same names, beside the programs and elsewhere
    let decoys = root.join("bin");
    std::fs::create_dir_all(&decoys).unwrap();
    let other = enc::file(&Trace { evs: vec![], start_ns: 1, pid: 1, cmd: "decoy".into() }, 9, Enc::Simple, Paging::Library, rng);
    let place_decoys = |d: &Path| {
        for n in NAMES {
            write_file(d, &format!("{n}.mm_profdata"), &other);
            write_file(d, n, &other);
        }
    };
    place_decoys(&decoys);
    for _ in 0..rng.range(1, 2) {
        let (name, args, want) = invocation(rng);
        let s = Setup { root: &root, tools: ctx.tools.clone(), name, args: &args, beside: want.iter().any(|w| w.starts_with("next/")), shared: false };
        let what = format!("{name} {args:?}");
        clean(&dirs[0], false);
        clean(&inputs, true);
        let base = once(&s, &circumstances(rng, true), &inputs, &dirs[0])?;
        ctx.count("tool_runs", 1);
        expected(&base, &want, false, &what)?;
        for _ in 0..rng.range(1, 3) {
            let h = circumstances(rng, false);
            if rng.chance(1, 2) {
                clean(&dirs[0], false);
                clean(&dirs[1], false);
                clean(&inputs, true);
                clean(&links_of(&root, &inputs), true);
            } else {
                // what lies there is replaced
                for w in &want {
                    let (place, n) = w.split_once('/').unwrap();
                    let d = if place == "next" { beside_of(&root, &inputs, h.spell) } else { dirs[h.cwd].clone() };
                    write_file(&d, n, &vec![b'~'; rng.logsize(9000) as usize]);
                }
            }
            if rng.chance(1, 3) && h.cwd != 2 {
                place_decoys(&dirs[h.cwd]);
            }
            if rng.chance(1, 4) {
                // a file's times say nothing about its contents
                let p = inputs.join(format!("{}.mm_profdata", rng.pick(&NAMES)));
                let f = File::open(p).unwrap();
                f.set_modified(UNIX_EPOCH + Duration::from_secs(rng.logsize(4_000_000_000))).unwrap();
            }
            let r = once(&s, &h, &inputs, &dirs[h.cwd])?;
            same(&base, &r, &h.text, &what)?;
            expected(&r, &want, h.cwd == 2, &format!("{what} {}", h.text))?;
            ctx.count("tool_runs", 1);
            ctx.count(&format!("compared_{name}"), 1);
            if h.tty {
                ctx.count("runs_at_a_terminal", 1);
            }
            ctx.eval(Some(hash_bytes(format!("{:x} {name} {args:?} {}", key.0, h.text).as_bytes())));
        }
        if rng.chance(1, 3) {
            // several at the same time
            let n = rng.range(2, 4) as usize;
            let mut places = vec![];
            for i in 0..n {
                let w = root.join(format!("p{i}"));
                std::fs::create_dir_all(&w).unwrap();
                clean(&w, false);
                // outputs beside the input must not meet
                let ins = root.join(format!("in{i}"));
                std::fs::create_dir_all(&ins).unwrap();
                clean(&ins, false);
                for n in NAMES {
                    let f = format!("{n}.mm_profdata");
                    std::fs::copy(inputs.join(&f), ins.join(&f)).unwrap();
                }
                make_links(&root, &ins);
                let mut h = circumstances(rng, false);
                h.tty = false;
                places.push((w, ins, h));
            }
            let s = Setup { shared: !s.beside, ..s };
            let beside = s.beside;
            let rs: Vec<R<Result_>> = std::thread::scope(|sc| {
                let hs: Vec<_> = places
                    .iter()
                    .map(|(w, ins, h)| {
                        let (s, inputs) = (&s, &inputs);
                        sc.spawn(move || once(s, h, if beside { ins } else { inputs }, w))
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            for (r, (_, _, h)) in rs.into_iter().zip(&places) {
                let r = r?;
                same(&base, &r, &format!("while {n} run at the same time, {}", h.text), &what)?;
                expected(&r, &want, false, &what)?;
            }
            ctx.count("tool_runs", n as u64);
            ctx.count("runs_at_the_same_time", n as u64);
        }
        ctx.sample(|| format!("{what}: exit {:?}, {} lines, files {:?}", base.code, base.out.len(), base.files.keys().collect::<Vec<_>>()));
    }
    Ok(())
}

/// What is read under one path, one after the other and in many threads at once.
fn openings(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let dir = ctx.dir("c36");
    let k = rng.range(2, 4) as usize;
    let mut all = vec![];
    let first = gen_trace(rng, &GenOpts { max_events: 60, ..Default::default() });
    for i in 0..k {
        let mut t = if i > 0 && rng.chance(1, 3) {
            // the same but for one detail, in a file of the same length
            let mut t = Trace { evs: first.evs.clone(), start_ns: first.start_ns, pid: first.pid, cmd: first.cmd.clone() };
            t.start_ns ^= 1 << rng.below(8);
            if let Some(e) = t.evs.last_mut() {
                let mut d = e.tid;
                while first.evs.iter().any(|x| x.tid == d) {
                    d = e.tid ^ rng.range(1, 255) as u32;
                }
                e.tid = d;
            }
            t
        } else if i > 0 {
            gen_trace(rng, &GenOpts { max_events: 60, ..Default::default() })
        } else {
            Trace { evs: first.evs.clone(), start_ns: first.start_ns, pid: first.pid, cmd: first.cmd.clone() }
        };
        if i == 0 {
            t.start_ns = first.start_ns;
        }
        let mut r2 = if rng.chance(1, 2) { Rng::new(7) } else { rng.fork() };
        let b = enc::file(&t, *rng.pick(&[8u32, 9, 9]), Enc::Simple, Paging::Library, &mut r2);
        let p = write_file(&dir, &format!("p{i}.mm_profdata"), &b);
        all.push((t, b, p));
    }
    let same = |pd: &ProfilingData, t: &Trace, what: &str| -> R {
        let m = pd.metadata();
        check!(m.start_time == start_of(t) && m.process_id == t.pid && m.cmd == t.cmd, "{what}: metadata {m:?} instead of that of process {} started at {}", t.pid, t.start_ns);
        same_evs(&read_evs(pd, start_of(t))?, &t.evs, what)
    };
    let stamp = UNIX_EPOCH + Duration::from_secs(1_600_000_000);
    let x = dir.join("x.mm_profdata");
    let mut h = Hasher64::new();
    let mut kept = vec![];
    for step in 0..rng.range(2, 7) {
        let i = rng.us(k);
        let (t, b, _) = &all[i];
        h.add(i as u64);
        h.add(t.key());
        if rng.chance(1, 2) {
            std::fs::write(&x, b).unwrap();
        } else {
            let y = write_file(&dir, "y", b);
            std::fs::rename(y, &x).unwrap();
        }
        if rng.chance(1, 2) {
            File::options().write(true).open(&x).unwrap().set_modified(stamp).unwrap();
        }
        let what = format!("opening number {} of one path, which holds profile {i} of {k} now", step + 1);
        let pd = match rng.below(4) {
            0 => open_bytes(b.clone())?,
            1 => open_file(&dir.join("x"))?,
            _ => open_file(&x)?,
        };
        same(&pd, t, &what)?;
        if rng.chance(1, 2) {
            kept.push((pd, i));
        }
        ctx.count("openings_of_one_path", 1);
    }
    // what is open stays what it is
    std::fs::write(&x, b"gone").unwrap();
    std::fs::remove_file(&x).unwrap();
    for (pd, i) in &kept {
        same(pd, &all[*i].0, "a profile that was opened before its file was replaced and removed")?;
        ctx.count("profiles_outliving_their_file", 1);
    }
    check!(cut("ProfilingData::new", || ProfilingData::new(&x).is_err())?, "a removed profile can still be opened");
    // at the same time
    let mut alone = vec![];
    for (_, b, _) in &all {
        let pd = open_bytes(b.clone())?;
        alone.push(cut("collapse_stacks", || analyzeme::collapse_stacks(&pd))?);
    }
    let n = rng.range(2, 6) as usize;
    let rngs: Vec<Rng> = (0..n).map(|_| rng.fork()).collect();
    let rs: Vec<R> = std::thread::scope(|sc| {
        let hs: Vec<_> = rngs
            .into_iter()
            .map(|mut rng| {
                let (all, same, alone) = (&all, &same, &alone);
                sc.spawn(move || -> R {
                    for _ in 0..rng.range(1, 4) {
                        let i = rng.us(all.len());
                        let (t, b, p) = &all[i];
                        let pd = if rng.chance(1, 2) { open_file(p)? } else { open_bytes(b.clone())? };
                        same(&pd, t, &format!("profile {i} read by one of {n} threads"))?;
                        if rng.chance(1, 3) {
                            let got = cut("collapse_stacks", || analyzeme::collapse_stacks(&pd))?;
                            check!(got == alone[i], "stacks of profile {i} collapsed by one of {n} threads: {} in {} stacks instead of {} in {}", got.values().sum::<u64>(), got.len(), alone[i].values().sum::<u64>(), alone[i].len());
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for r in rs {
        r?;
    }
    ctx.count("threads_reading_at_once", n as u64);
    ctx.eval(Some(h.0));
    Ok(())
}

//! Running the command-line tools in scratch directories.
use crate::core::*;
use std::ffi::OsStr;
use std::io::Read;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
}

impl Out {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn out(&self) -> String {
        String::from_utf8_lossy(&self.stdout).into_owned()
    }
    pub fn err(&self) -> String {
        String::from_utf8_lossy(&self.stderr).into_owned()
    }
    pub fn panicked(&self) -> bool {
        self.code == Some(101) || self.err().contains("panicked at") || self.err().contains("RUST_BACKTRACE")
    }
    pub fn brief(&self) -> String {
        format!(
            "exit {:?} signal {:?} stdout {} stderr {}",
            self.code,
            self.signal,
            show(&self.out()),
            show(&self.err())
        )
    }
}

pub fn run_cmd(c: Command, what: &str) -> R<Out> {
    run_io(c, what, Stdio::null())
}

pub fn run_io(mut c: Command, what: &str, stdin: Stdio) -> R<Out> {
    c.stdin(stdin).stdout(Stdio::piped()).stderr(Stdio::piped());
    unsafe {
        c.pre_exec(|| {
            let l = libc::rlimit { rlim_cur: 120, rlim_max: 125 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let l = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut ch = c.spawn().unwrap_or_else(|e| panic!("cannot start {what}: {e}"));
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let t = std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = so.read_to_end(&mut v);
        v
    });
    let t2 = std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = se.read_to_end(&mut v);
        v
    });
    let start = Instant::now();
    let mut nap = Duration::from_micros(300);
    let status = loop {
        match ch.try_wait().expect("wait") {
            Some(s) => break s,
            None => {
                if start.elapsed() > Duration::from_secs(400) {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return viol(format!("{what}: did not finish within 400 s"));
                }
                std::thread::sleep(nap);
                nap = (nap * 2).min(Duration::from_millis(20));
            }
        }
    };
    Ok(Out { code: status.code(), signal: status.signal(), stdout: t.join().unwrap(), stderr: t2.join().unwrap() })
}

pub fn tool<S: AsRef<OsStr>>(ctx: &mut Ctx, name: &str, args: &[S], cwd: &Path) -> R<Out> {
    let mut c = Command::new(ctx.tools.join(name));
    c.args(args).current_dir(cwd).env_remove("LD_PRELOAD").env("RUST_BACKTRACE", "0");
    ctx.count("tool_runs", 1);
    run_cmd(c, name)
}

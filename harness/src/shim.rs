//! Control of the LD_PRELOAD shim (shim/shim.c) loaded into this process.
use std::sync::atomic::AtomicI64;

pub const MAXC: usize = 16;
#[repr(C)]
pub struct Ctl {
    pub armed: AtomicI64,
    pub delay_us: AtomicI64,
    pub short_pm: AtomicI64,
    pub eintr_pm: AtomicI64,
    pub fail_at: AtomicI64,
    pub fail_errno: AtomicI64,
    pub byte_limit: AtomicI64,
    pub sparse: AtomicI64,
    pub seed: AtomicI64,
    pub fail_once: AtomicI64,
    pub open_fail_at: AtomicI64,
    pub n_writes: AtomicI64,
    pub n_short: AtomicI64,
    pub n_eintr: AtomicI64,
    pub n_fail: AtomicI64,
    pub n_delay: AtomicI64,
    pub n_bytes: AtomicI64,
    pub n_opens: AtomicI64,
    pub n_open_fail: AtomicI64,
    pub mono_off: AtomicI64,
    pub real_off: AtomicI64,
    pub mono_res: AtomicI64,
    pub perf: AtomicI64,
    pub perf_errno: AtomicI64,
    pub perf_fail_at: AtomicI64,
    pub perf_caps: AtomicI64,
    pub perf_width: AtomicI64,
    pub perf_index_zero: AtomicI64,
    pub perf_opened: AtomicI64,
    pub perf_closed: AtomicI64,
    pub perf_badmap: AtomicI64,
    pub perf_flags: [AtomicI64; MAXC],
    pub perf_type: [AtomicI64; MAXC],
    pub perf_config: [AtomicI64; MAXC],
    pub perf_exclude: [AtomicI64; MAXC],
    pub pmc: [AtomicI64; 64],
    pub pmc_step: [AtomicI64; 64],
    pub pmc_reads: [AtomicI64; 64],
    pub rdpmc_seen: AtomicI64,
    pub perf_index: AtomicI64,
    pub perf_map_errno: AtomicI64,
    pub perf_failed: AtomicI64,
    pub perf_upd_open: AtomicI64,
    pub perf_upd_at: AtomicI64,
    pub perf_new_caps: AtomicI64,
    pub perf_new_width: AtomicI64,
    pub perf_new_index: AtomicI64,
    pub perf_accesses: AtomicI64,
    pub perf_updated: AtomicI64,
    pub cpu_vendor: [AtomicI64; 3],
    pub cpu_sig: AtomicI64,
    pub cpuid_seen: AtomicI64,
}

fn sym(name: &str) -> *mut libc::c_void {
    let n = std::ffi::CString::new(name).unwrap();
    unsafe { libc::dlsym(libc::RTLD_DEFAULT, n.as_ptr()) }
}

pub fn ctl() -> Option<&'static Ctl> {
    let p = sym("mmv_ctl");
    let s = sym("mmv_ctl_size");
    if p.is_null() || s.is_null() {
        return None;
    }
    unsafe {
        let size: extern "C" fn() -> usize = std::mem::transmute(s);
        assert_eq!(size(), std::mem::size_of::<Ctl>(), "shim layout");
        let f: extern "C" fn() -> *const Ctl = std::mem::transmute(p);
        Some(&*f())
    }
}

pub fn perf_install() -> bool {
    let p = sym("mmv_perf_install");
    if p.is_null() {
        return false;
    }
    unsafe {
        let f: extern "C" fn() -> i32 = std::mem::transmute(p);
        f() == 0
    }
}

/// Emulated CPU identification for this thread; false if the machine cannot do that.
pub fn cpuid(on: bool) -> bool {
    let p = sym("mmv_cpuid");
    if p.is_null() {
        return false;
    }
    unsafe {
        let f: extern "C" fn(i32) -> i32 = std::mem::transmute(p);
        f(on as i32) == 0
    }
}

pub fn get(a: &AtomicI64) -> i64 {
    a.load(std::sync::atomic::Ordering::SeqCst)
}
pub fn set(a: &AtomicI64, v: i64) {
    a.store(v, std::sync::atomic::Ordering::SeqCst)
}

impl Ctl {
    pub fn reset(&self) {
        for a in [&self.armed, &self.delay_us, &self.short_pm, &self.eintr_pm, &self.fail_errno, &self.sparse,
            &self.fail_once, &self.n_writes, &self.n_short, &self.n_eintr, &self.n_fail, &self.n_delay,
            &self.n_bytes, &self.n_opens, &self.n_open_fail, &self.mono_off, &self.real_off, &self.mono_res]
        {
            set(a, 0);
        }
        for a in [&self.perf, &self.perf_errno, &self.perf_caps, &self.perf_index_zero, &self.perf_opened, &self.perf_closed,
            &self.perf_badmap, &self.rdpmc_seen, &self.perf_index, &self.perf_map_errno, &self.perf_upd_open, &self.perf_upd_at,
            &self.perf_accesses, &self.perf_updated, &self.cpuid_seen]
        {
            set(a, 0);
        }
        for i in 0..64 {
            for a in [&self.pmc[i], &self.pmc_step[i], &self.pmc_reads[i]] {
                set(a, 0);
            }
        }
        for i in 0..MAXC {
            for a in [&self.perf_flags[i], &self.perf_type[i], &self.perf_config[i], &self.perf_exclude[i]] {
                set(a, -1);
            }
        }
        set(&self.perf_width, 48);
        set(&self.perf_fail_at, -1);
        set(&self.perf_failed, -1);
        set(&self.fail_at, -1);
        set(&self.byte_limit, -1);
        set(&self.open_fail_at, -1);
    }
}

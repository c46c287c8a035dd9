#!/usr/bin/env python3
"""Driver of the checks: builds the monitors against /repo, runs workers, collects evidence.

  check.py setup                 build everything
  check.py C01 quick|thorough    run one check
  check.py replay FILE           run the case of a replay file again
"""
import fcntl, hashlib, json, os, resource, shutil, signal, struct, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(ROOT, ".build")
WORK = os.path.join(ROOT, ".work")
TOOLCHAIN = os.environ.get("MMV_TOOLCHAIN", "1.90.0")
THOROUGH_SECS = float(os.environ.get("MMV_THOROUGH_SECS", "330"))
QUICK_CAP = 200.0

REPO_CRATES = ["measureme", "decodeme", "analyzeme", "crox", "mmview", "mmedit", "summarize",
               "stack_collapse", "flamegraph"]
NEED_TOOLS = {"C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C24", "C30", "C35", "C36"}
NEED_SHIM = {"C02", "C03", "C04", "C05", "C24", "C27", "C28", "C29"}
BIG_MEM = {"C05": 26, "C06": 14, "C35": 14}
# whose cost is counted: as users build it
ALL_REL = {"C35"}

ASSUME = {
    None: ["The reference models of the harness state the documented behaviour correctly (they are independent "
           "re-implementations and are cross-checked against each other by the checks themselves).",
           "The property was observed on the generated workloads only, on this machine."],
}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Broken(Exception):
    pass


# ---------------------------------------------------------------- building
def source_hash():
    h = hashlib.sha256()
    for d, dirs, files in os.walk(REPO):
        dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock", ".md")):
                p = os.path.join(d, f)
                try:
                    with open(p, "rb") as fh:
                        h.update(p.encode() + b"\0" + fh.read() + b"\0")
                except OSError:
                    pass
    return h.hexdigest()


def refresh(target, h):
    """Forces cargo to rebuild the repository's crates when their contents changed."""
    stamp = os.path.join(target, "repo.hash")
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != h:
        if os.path.isdir(target):
            for d, dirs, _ in os.walk(target):
                if os.path.basename(d) == ".fingerprint":
                    for x in list(dirs):
                        if any(x.startswith(c + "-") for c in REPO_CRATES + ["mmv"]):
                            shutil.rmtree(os.path.join(d, x), ignore_errors=True)
                    dirs[:] = []
        if os.path.exists(stamp):
            os.remove(stamp)
    return lambda: open(stamp, "w").write(h)


def cargo_env(extra=None, toolchain=TOOLCHAIN, flags=""):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_PROFILE", "CARGO_BUILD")) or k in ("LD_PRELOAD", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"):
            del e[k]
    e.update({"RUSTUP_TOOLCHAIN": toolchain, "CARGO_NET_OFFLINE": "true", "CARGO_INCREMENTAL": "0",
              "RUSTFLAGS": ("--cap-lints=allow " + flags).strip(), "CARGO_TERM_COLOR": "never"})
    e.update(extra or {})
    return e


def start(cmd, cwd, env):
    return subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def finish(name, p, t0):
    out, _ = p.communicate()
    if p.returncode != 0:
        raise Broken(f"building {name} failed:\n{out.decode(errors='replace')[-6000:]}")
    log(f"built {name} ({time.time() - t0:.1f} s)")


def build(need):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = source_hash()
        t0 = time.time()
        jobs = []
        if "harness" in need:
            t = os.path.join(BUILD, "harness")
            done = refresh(t, h)
            jobs.append(("harness", start(["cargo", "build", "--offline", "--target-dir", t],
                                          os.path.join(ROOT, "harness"), cargo_env()), done))
            # as users build it: without debug assertions and overflow checks
            jobs.append(("harness (release)", start(["cargo", "build", "--offline", "--profile", "rel", "--target-dir", t],
                                                    os.path.join(ROOT, "harness"), cargo_env()), lambda: None))
        if "tools" in need:
            t = os.path.join(BUILD, "tools")
            done = refresh(t, h)
            jobs.append(("tools", start(["cargo", "build", "--offline", "--bins", "--target-dir", t], REPO,
                                        cargo_env({"CARGO_PROFILE_DEV_OPT_LEVEL": "1", "CARGO_PROFILE_DEV_DEBUG": "0"})),
                         done))
            jobs.append(("tools (release)", start(["cargo", "build", "--offline", "--release", "--bins", "--target-dir", t], REPO,
                                                  cargo_env({"CARGO_PROFILE_RELEASE_OPT_LEVEL": "1"})), lambda: None))
        if "shim" in need:
            src = os.path.join(ROOT, "shim/shim.c")
            so = os.path.join(BUILD, "shim.so")
            if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
                jobs.append(("shim", start(["gcc", "-O2", "-g", "-fPIC", "-shared", "-o", so, src, "-ldl"], ROOT, None),
                             lambda: None))
        err = None
        for n, p, done in jobs:
            try:
                finish(n, p, t0)
                done()
            except Broken as e:
                err = err or e
        if err:
            raise err


# ---------------------------------------------------------------- scratch
def scratch_root():
    try:
        st = os.statvfs("/dev/shm")
        if os.access("/dev/shm", os.W_OK) and st.f_bavail * st.f_frsize > (3 << 30):
            return "/dev/shm"
    except OSError:
        pass
    os.makedirs(WORK, exist_ok=True)
    return WORK


# ---------------------------------------------------------------- workers
TICK = os.sysconf("SC_CLK_TCK")


def descendants(pid):
    kids = {}
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                s = open(f"/proc/{d}/stat").read()
                f = s[s.rindex(")") + 2:].split()
                kids.setdefault(int(f[1]), []).append(int(d))
            except (OSError, ValueError):
                pass
    out, todo = [], [pid]
    while todo:
        p = todo.pop()
        out.append(p)
        todo += kids.get(p, [])
    return out


def cpu_of(pids):
    """(cpu seconds, everything asleep?)"""
    t, asleep = 0.0, True
    for p in pids:
        try:
            for tid in os.listdir(f"/proc/{p}/task"):
                s = open(f"/proc/{p}/task/{tid}/stat").read()
                f = s[s.rindex(")") + 2:].split()
                if f[0] not in "SZ":
                    asleep = False
            s = open(f"/proc/{p}/stat").read()
            f = s[s.rindex(")") + 2:].split()
            t += (int(f[11]) + int(f[12]) + int(f[13]) + int(f[14])) / TICK
        except (OSError, ValueError):
            pass
    return t, asleep


class Worker:
    def __init__(self, run, i, case=None, reps=1, tier=None, seed=None):
        self.run, self.i = run, i
        self.case = case
        # every other worker observes the code as users build it
        rel = i % 2 == 1 or run.id in ALL_REL
        cmd = [os.path.join(BUILD, "harness/rel/mmv" if rel else "harness/debug/mmv"), "worker", run.id, "--tier", tier or run.tier, "--seed", str(run.seed if seed is None else seed),
               "--worker", str(i), "--workers", str(run.n), "--dir", run.dir, "--tools",
               os.path.join(BUILD, "tools/release" if rel else "tools/debug"), "--shim", os.path.join(BUILD, "shim.so"),
               "--secs", str(run.secs)]
        if case is not None:
            cmd += ["--case", str(case), "--reps", str(reps)]
        cmd += run.extra
        env = dict(os.environ)
        env.pop("LD_PRELOAD", None)
        env["RUST_BACKTRACE"] = "0"
        env.update(run.env)
        if run.id in NEED_SHIM and run.preload:
            env["LD_PRELOAD"] = os.path.join(BUILD, "shim.so")
        lim = None if not run.limit_mem else (BIG_MEM.get(run.id, 5) << 30)

        def pre():
            os.setsid()
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if lim:
                resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        self.err = open(os.path.join(run.dir, f"w{i}.stderr"), "wb")
        self.p = subprocess.Popen(cmd, env=env, stdin=subprocess.DEVNULL, stdout=self.err, stderr=self.err, preexec_fn=pre)
        self.hb = None
        self.hb_t = time.time()
        self.hb_cpu = 0.0
        self.samples = []
        self.rc = None

    def file(self, ext):
        return os.path.join(self.run.dir, f"w{self.i}.{ext}")

    def heartbeat(self):
        try:
            b = open(self.file("cur"), "rb").read(16)
            return struct.unpack("<QQ", b) if len(b) == 16 else None
        except OSError:
            return None

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            self.p.wait(10)
        except subprocess.TimeoutExpired:
            pass

    def stderr_tail(self, n=3000):
        try:
            return open(self.file("stderr"), "rb").read()[-n:].decode(errors="replace")
        except OSError:
            return ""

    def poll(self):
        """None while running, else ('ok'|'viol'|'error'|'retry', message)"""
        rc = self.p.poll()
        now = time.time()
        if rc is None:
            hb = self.heartbeat()
            if hb != self.hb:
                self.hb, self.hb_t = hb, now
                self.hb_cpu, _ = cpu_of(descendants(self.p.pid))
                self.samples = []
                return None
            if now - self.hb_t > self.run.stall and (not self.samples or now - self.samples[-1][0] > 5):
                cpu, asleep = cpu_of(descendants(self.p.pid))
                self.samples.append((now, cpu, asleep))
                if cpu - self.hb_cpu > self.run.cpu_limit:
                    c = hb[0] if hb else -1
                    self.kill()
                    return ("viol", f"case {c} does not terminate: it used {cpu - self.hb_cpu:.0f} s of CPU time", c)
                last = [s for s in self.samples if now - s[0] <= 40]
                if len(last) >= 6 and all(s[2] for s in last) and last[-1][1] - last[0][1] < 0.05:
                    c = hb[0] if hb else -1
                    self.kill()
                    return ("viol", f"case {c} makes no progress: all threads have been blocked for "
                                    f"{now - self.hb_t:.0f} s (deadlock)", c)
            return None
        if os.path.exists(self.file("viol")):
            j = json.load(open(self.file("viol")))
            return ("viol", j["message"], j["case"])
        if os.path.exists(self.file("error")):
            j = json.load(open(self.file("error")))
            return ("error", f"harness failure in case {j['case']}: {j['message']}", j["case"])
        if rc == 0:
            return ("ok", "", None)
        hb = self.heartbeat()
        c = hb[0] if hb else -1
        if rc == -signal.SIGKILL:
            return ("retry", f"worker killed in case {c}", c)
        tail = self.stderr_tail()
        what = f"signal {signal.Signals(-rc).name}" if rc < 0 else f"exit status {rc}"
        if rc in (101, 2) and "thread 'main'" not in tail and "Sanitizer" not in tail:
            return ("error", f"harness failure in case {c}: {what}: {tail[-600:]}", c)
        return ("viol", f"case {c}: the process died ({what}): {' '.join(tail.split())[-1500:]}", c)


class Run:
    def __init__(self, pid, tier, seed):
        self.id, self.tier, self.seed = pid, tier, seed
        self.n = int(os.environ.get("MMV_WORKERS", "8"))
        self.secs = THOROUGH_SECS if tier == "thorough" else QUICK_CAP
        self.env, self.extra = {}, []
        self.preload = True
        self.limit_mem = True
        self.stall = 20
        self.cpu_limit = 240
        self.tag = ""
        self.dir = tempfile.mkdtemp(prefix=f"mmv-{pid}-", dir=scratch_root())
        self.viols, self.errors = [], []
        self.result = {"cases": 0, "evals": 0, "counters": {}, "samples": [], "capped": 0}
        self.keys = set()

    def go(self, workers=None, case=None, reps=1):
        ws = [Worker(self, i, case, reps) for i in (workers if workers is not None else range(self.n))]
        retried = set()
        try:
            while ws:
                time.sleep(0.05)
                for w in list(ws):
                    r = w.poll()
                    if r is None:
                        continue
                    ws.remove(w)
                    self.collect(w)
                    if r[0] == "viol":
                        self.viols.append((r[1], r[2]))
                    elif r[0] == "error":
                        self.errors.append(r[1])
                    elif r[0] == "retry":
                        if w.i in retried:
                            self.errors.append(r[1])
                        else:
                            retried.add(w.i)
                            ws.append(Worker(self, w.i, case, reps))
                if self.viols or self.errors:
                    break
        finally:
            for w in ws:
                w.kill()
                self.collect(w)

    def collect(self, w):
        try:
            j = json.load(open(w.file("json")))
        except (OSError, ValueError):
            hb = w.heartbeat()
            if hb:
                self.result["cases"] += hb[1]
            return
        self.result["cases"] += j["cases"]
        self.result["evals"] += j["evals"]
        self.result["capped"] += 1 if j["capped"] else 0
        for k, v in j["counters"].items():
            c = self.result["counters"]
            c[k] = max(c.get(k, 0), v) if k.startswith("max:") else c.get(k, 0) + v
        self.result["samples"] += j["samples"][:1] if len(self.result["samples"]) < 4 else []
        try:
            b = open(w.file("keys"), "rb").read()
            self.keys.update(struct.unpack(f"<{len(b) // 8}Q", b))
        except OSError:
            pass

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def known():
    """(active findings, fixed entries)"""
    act, path = [], os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith("finding: "):
                act.append(json.loads(l[len("finding: "):]))
    return act


def report(pid, tier, seed, msg, case, extra=None):
    os.makedirs(os.path.join(WORK, "replays"), exist_ok=True)
    p = os.path.join(WORK, "replays", f"{pid}-{tier}-{seed}-{case}.json")
    with open(p, "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "case": case, "message": msg, **(extra or {})}, f, indent=1)
        f.write("\n")
    log(f"{pid}: {msg}")
    print(f"VIOLATION property={pid} replay={p}", flush=True)


def rules():
    out = subprocess.run([os.path.join(BUILD, "harness/debug/mmv"), "list"], capture_output=True, text=True, check=True).stdout
    return {l.split("\t")[0]: l.split("\t")[1] for l in out.splitlines()}


LEVEL = {"C12": "fault_enumeration", "C24": "fault_enumeration"}


def evidence(pid, tier, seed, run, t0, nviol, more=None):
    cov = {"evaluations": run.result["evals"], "distinct_nontrivial": len(run.keys), "rule": rules().get(pid, ""),
           "samples": run.result["samples"][:4], "cases": run.result["cases"]}
    for k, v in sorted(run.result["counters"].items()):
        cov[("observed_max_" + k[4:]) if k.startswith("max:") else ("observed_" + k)] = v
    if run.result["capped"]:
        cov["workers_stopped_by_time_budget"] = run.result["capped"]
    cov.update(more or {})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": LEVEL.get(pid, "exploration"), "coverage": cov,
          "assumptions": ASSUME.get(pid, []) + ASSUME[None], "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    p = os.path.join(ROOT, "evidence", f"{pid}.json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    os.replace(p + ".tmp", p)


def needs(pid):
    n = {"harness"}
    if pid in NEED_TOOLS:
        n.add("tools")
    if pid in NEED_SHIM:
        n.add("shim")
    return n


def check(pid, tier, seed):
    t0 = time.time()
    build(needs(pid))
    run = Run(pid, tier, seed)
    more = {}
    try:
        run.go()
        extra = EXTRA.get(pid)
        if extra and not run.viols and not run.errors:
            more = extra(run, tier, seed) or {}
        if run.errors and not run.viols:
            evidence(pid, tier, seed, run, t0, 0, more)
            for e in run.errors:
                log("INCONCLUSIVE:", e)
            return 2
        evidence(pid, tier, seed, run, t0, len(run.viols), more)
        if run.viols:
            msg, case = run.viols[0]
            report(pid, tier, seed, msg, case)
            return 1
        if not run.result["evals"] or not run.keys:
            log("INCONCLUSIVE: nothing was observed")
            return 2
        for k in known():
            if k["property"] == pid:
                print(f"KNOWN-FINDING: property={pid} {k['what']}", flush=True)
        log(f"{pid} {tier}: held on {run.result['evals']} evaluations, {len(run.keys)} distinct "
            f"({time.time() - t0:.1f} s)")
        return 0
    finally:
        run.close()


def replay(path):
    j = json.load(open(path))
    pid = j["property"]
    if pid == "C23" or j["case"] == "machine":
        import sanit
        return sanit.c23(j["tier"], j["seed"]) if pid == "C23" else check(pid, j["tier"], j["seed"])
    build(needs(pid))
    run = Run(pid, j["tier"], j["seed"])
    try:
        reps = 200 if pid in ("C02", "C03", "C04", "C23", "C27", "C29") else 3
        run.go([0, 1], j["case"], reps)
        if run.viols:
            log(run.viols[0][0])
            print(f"VIOLATION property={pid} replay={path}", flush=True)
            return 1
        for e in run.errors:
            log("INCONCLUSIVE:", e)
        return 2 if run.errors else 0
    finally:
        run.close()


def main():
    global EXTRA
    import sanit
    EXTRA = {"C09": sanit.c09}
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    try:
        if a[0] == "setup":
            build({"harness", "tools", "shim"})
            sanit.setup()
            return 0
        if a[0] == "replay":
            return replay(a[1])
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        if a[0] == "C23":
            return sanit.c23(tier, seed)
        return check(a[0], tier, seed)
    except Broken as e:
        log(e)
        return 2


if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    sys.exit(main())

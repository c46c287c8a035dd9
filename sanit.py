"""C23 and the part of C09 that needs an interpreter: sanitizer and Miri runs."""
import glob, os, re, shutil, subprocess, sys, time

import check as c

NIGHTLY = "nightly"
TARGET = "x86_64-unknown-linux-gnu"
# other machines that Miri interprets the code for
MACHINES = {
    "be": ("s390x-unknown-linux-gnu", "big-endian"),
    "w32": ("i686-unknown-linux-gnu", "32-bit"),
}

ASAN_PROPS = ["C01", "C02", "C03", "C06", "C08", "C09", "C10", "C11", "C27", "C28", "C29"]
MSAN_PROPS = ["C01", "C02", "C03", "C06", "C08", "C09", "C11", "C27"]
TSAN_PROPS = ["C01", "C02", "C03", "C06", "C27", "C28", "C29"]

MIRI_BASE = "-Zmiri-disable-isolation -Zmiri-permissive-provenance"
MIRI_VARIANTS = [
    "",
    "-Zmiri-tree-borrows",
    "-Zmiri-preemption-rate=0.1",
    "-Zmiri-tree-borrows -Zmiri-preemption-rate=0.3 -Zmiri-address-reuse-cross-thread-rate=0.5",
    "-Zmiri-preemption-rate=0.5",
    "-Zmiri-preemption-rate=0",
    "-Zmiri-tree-borrows -Zmiri-preemption-rate=0.05 -Zmiri-compare-exchange-weak-failure-rate=0.9",
    "-Zmiri-preemption-rate=0.02",
]


def exe(kind):
    return os.path.join(c.BUILD, kind, TARGET, "debug/mmv")


def san_build(kind):
    flag = {"asan": "-Zsanitizer=address", "tsan": "-Zsanitizer=thread", "msan": "-Zsanitizer=memory -Zsanitizer-memory-track-origins"}[kind]
    cmd = ["cargo", "build", "--offline", "--target", TARGET, "--target-dir", os.path.join(c.BUILD, kind)]
    if kind != "asan":
        cmd.append("-Zbuild-std")
    return cmd, os.path.join(c.ROOT, "harness"), c.cargo_env(toolchain=NIGHTLY, flags=flag)


def miri_env(machine="", flags="", seed=0):
    e = c.cargo_env(toolchain=NIGHTLY)
    # with lints capped at "allow" cargo cannot learn about the target
    e["RUSTFLAGS"] = "--cap-lints=warn"
    e["MIRIFLAGS"] = f"{MIRI_BASE} -Zmiri-seed={seed} {flags}".strip()
    if machine:
        e["MIRI_SYSROOT"] = os.path.join(c.BUILD, "miri-" + machine)
    return e


def miri_cmd(args, machine="", rel=False):
    cmd = ["cargo", "miri", "run", "--offline", "--target-dir", os.path.join(c.BUILD, "miri")]
    if rel:
        # without debug assertions
        cmd.append("--release")
    if machine:
        cmd += ["--target", MACHINES[machine][0]]
    return cmd + ["--"] + args


def build_one(name):
    """(command, directory, environment) of one build, and its refresh directory"""
    if name in ("asan", "tsan", "msan"):
        return san_build(name) + (os.path.join(c.BUILD, name),)
    machine = name[5:] if name[5:] in MACHINES else ""
    return (miri_cmd(["all", "--from", "0", "--to", "0", "--dir", "/nonexistent"], machine, name == "miri-rel"), os.path.join(c.ROOT, "probe"), miri_env(machine),
            os.path.join(c.BUILD, "miri"))


def build(kinds):
    import fcntl
    os.makedirs(c.BUILD, exist_ok=True)
    with open(os.path.join(c.BUILD, "lock-san"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = c.source_hash()
        t0 = time.time()
        for m, (target, what) in MACHINES.items():
            if "miri-" + m in kinds and not os.path.isdir(os.path.join(c.BUILD, f"miri-{m}/lib")):
                c.finish(f"the {what} sysroot", c.start(["cargo", "miri", "setup", "--target", target], c.ROOT, miri_env(m)), t0)
        dones = {}
        jobs = []
        for k in kinds:
            cmd, cwd, env, target = build_one(k)
            if target not in dones:
                dones[target] = c.refresh(target, h)
            jobs.append((k, cmd, cwd, env))
        # the interpreters share a directory, and cargo's lock orders them
        ps = [(k, c.start(cmd, cwd, env)) for k, cmd, cwd, env in jobs]
        err = None
        for k, p in ps:
            try:
                c.finish(k, p, t0)
            except c.Broken as e:
                err = err or e
        if err:
            raise err
        for d in dones.values():
            d()


# ---------------------------------------------------------------- running
def san_env(kind, log):
    e = dict(os.environ)
    e.pop("LD_PRELOAD", None)
    e["RUST_BACKTRACE"] = "0"
    o = f"exitcode=66:log_path={log}:"
    sym = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18")
    if sym:
        o += f"external_symbolizer_path={sym}:"
    if kind == "asan":
        e["ASAN_OPTIONS"] = o + "detect_leaks=1:handle_abort=0:detect_stack_use_after_return=1:strict_init_order=1"
    elif kind == "tsan":
        e["TSAN_OPTIONS"] = o + "halt_on_error=1:report_signal_unsafe=0:history_size=4"
    else:
        e["MSAN_OPTIONS"] = o
    return e


SUMMARY = re.compile(r"(ERROR: (AddressSanitizer|LeakSanitizer|ThreadSanitizer)|WARNING: (ThreadSanitizer|MemorySanitizer)): (.*)")
# the sanitizer itself, not the program
NOT_THE_PROGRAM = ("failed to allocate", "unexpected memory mapping", "Program is run with limited", "out-of-memory",
                   "requested allocation size", "Shadow memory range", "allocation-size-too-big")


def parse_log(path):
    t = open(path, errors="replace").read()
    for m in SUMMARY.finditer(t):
        what = m.group(4)
        if any(x in t for x in NOT_THE_PROGRAM):
            continue
        frames = re.findall(r"#\d+ 0x[0-9a-f]+ in (.*)", t)
        near = [f for f in frames if "/repo/" in f][:3] or frames[:3]
        return f"{m.group(1)}: {what.strip()[:200]}; " + " <- ".join(x.strip()[:160] for x in near)
    return None


class Job:
    """One monitored process."""

    def __init__(self, name, cmd, env, cwd, limit, d):
        self.name, self.cmd, self.env, self.cwd, self.limit, self.dir = name, cmd, env, cwd, limit, d
        self.p = self.out = None
        self.rc = None
        self.late = False

    def start(self):
        self.t = time.time()
        self.out = open(os.path.join(self.dir, "out"), "wb")
        self.p = subprocess.Popen(self.cmd, env=self.env, cwd=self.cwd, stdin=subprocess.DEVNULL, stdout=self.out,
                                  stderr=subprocess.STDOUT, start_new_session=True)

    def poll(self):
        self.rc = self.p.poll()
        if self.rc is None and time.time() - self.t > self.limit:
            self.kill()
            self.late = True
            self.rc = self.p.returncode
        return self.rc

    def kill(self):
        try:
            os.killpg(self.p.pid, 9)
        except OSError:
            pass
        self.p.wait()

    def text(self):
        return open(os.path.join(self.dir, "out"), errors="replace").read()


def run_jobs(jobs, par, done):
    """Runs the jobs, `par` at a time; `done(job)` returns a violation to stop."""
    todo, live = list(jobs), []
    try:
        while todo or live:
            while todo and len(live) < par:
                j = todo.pop(0)
                j.start()
                live.append(j)
            time.sleep(0.05)
            for j in list(live):
                if j.poll() is not None:
                    live.remove(j)
                    v = done(j)
                    if v:
                        return v
    finally:
        for j in live:
            j.kill()
    return None


class Seen:
    def __init__(self, run):
        self.run = run
        self.counts = {}
        self.notes = []

    def add(self, k, n):
        self.counts[k] = self.counts.get(k, 0) + n

    def note(self, s):
        self.notes.append(s)
        c.log("note:", s)


def san_stage(kind, props, secs, per, seen, seed, tier, only=None):
    run = seen.run
    t0 = time.time()
    jobs = []
    for p in props:
        for w in range(per):
            d = os.path.join(run.dir, f"{kind}-{p}-{w}")
            os.makedirs(d)
            env = san_env(kind, os.path.join(d, "san"))
            env["MMV_SANITIZED"] = "1"
            if p in c.NEED_SHIM:
                env["LD_PRELOAD"] = os.path.join(c.BUILD, "shim.so")
            cmd = [exe(kind), "worker", p, "--tier", tier, "--seed", str(seed), "--worker", str(w), "--workers", str(per),
                   "--dir", d, "--tools", os.path.join(c.BUILD, "tools/debug"), "--shim", os.path.join(c.BUILD, "shim.so"),
                   "--secs", str(int(secs))]
            if tier != "thorough":
                cmd += ["--count", "1000000"]
            j = Job(f"{kind} {p}", cmd, env, c.ROOT, secs + 150, d)
            j.prop, j.w = p, w
            jobs.append(j)

    def done(j):
        for f in sorted(glob.glob(os.path.join(j.dir, "san*"))):
            m = parse_log(f)
            if m:
                return f"{kind} on the workload of {j.prop}: {m}"
        if j.rc < 0 and not j.late and -j.rc in (11, 7, 4):
            return f"{kind} on the workload of {j.prop}: the process died of signal {-j.rc}"
        w = _W(j.dir, j.w)
        n = w.collect(run, kind)
        seen.add(f"{kind}_cases", n)
        seen.add(f"{kind}_processes", 1)
        seen.add(f"{kind}_cases_of_{j.prop}", n)
        if j.late:
            seen.note(f"{j.name}: stopped after {j.limit} s")
        elif j.rc != 0:
            v = os.path.join(j.dir, f"w{j.w}.viol")
            m = open(v).read()[:400] if os.path.exists(v) else j.text()[-400:]
            seen.note(f"{j.name}: ended early (exit {j.rc}), which another check has to judge: {m}")
            seen.add("ended_early", 1)
        shutil.rmtree(j.dir, ignore_errors=True)
        return None

    v = run_jobs(jobs, 8, done)
    c.log(f"{kind}: {time.time() - t0:.1f} s")
    return v


class _W:
    def __init__(self, d, i):
        self.d, self.i = d, i

    def collect(self, run, kind):
        import json, struct
        n = 0
        try:
            j = json.load(open(os.path.join(self.d, f"w{self.i}.json")))
            n = j["cases"]
            if len(run.result["samples"]) < 3:
                run.result["samples"] += [f"{kind}: {s}" for s in j["samples"][:1]]
            b = open(os.path.join(self.d, f"w{self.i}.keys"), "rb").read()
            salt = {"asan": 1 << 40, "tsan": 2 << 40, "msan": 3 << 40}[kind]
            run.keys.update(k ^ salt for k in struct.unpack(f"<{len(b) // 8}Q", b))
        except (OSError, ValueError):
            pass
        run.result["evals"] += n
        run.result["cases"] += n
        return n


MIRI_UB = re.compile(r"^error: (Undefined Behavior: .*|memory leaked.*|unsupported operation: .*|.*deadlock.*|abnormal termination.*|resource exhaustion.*)$", re.M)


def miri_stage(machines, secs, procs, seen, seed, scenario="all", first=0, results=False):
    """Runs the probe under Miri, process `w` on the machine `machines[w]`;
    returns (undefined behaviour or leak, wrong result), and stops at the first of
    the kind that is asked for."""
    run = seen.run
    jobs = []
    for w in range(procs):
        m = machines[w % len(machines)]
        what = MACHINES[m][1] if m else ""
        name = "miri_" + re.sub(r"\W", "_", what) if m else "miri"
        d = os.path.join(run.dir, f"{name}-{w}")
        os.makedirs(os.path.join(d, "scratch"))
        flags = MIRI_VARIANTS[(w + first) % len(MIRI_VARIANTS)]
        a = [scenario, "--seed", str(seed * 1000 + w + first), "--from", str(w), "--to", "1000000", "--secs", str(int(secs)), "--dir",
             os.path.join(d, "scratch")]
        # every other process observes a build without debug assertions
        rel = not m and (w + w // len(MIRI_VARIANTS) + first + seed) % 2 == 1
        j = Job(f"{name} [{flags}]", miri_cmd(a, m, rel), miri_env(m, flags, seed * 1000 + w + first), os.path.join(c.ROOT, "probe"), secs + 200, d)
        j.flags = (flags + " release").strip() if rel else flags
        j.short, j.what, j.salt = name, what, 4 + ["", *MACHINES].index(m)
        jobs.append(j)
    res = [None, None]

    def done(j):
        name = j.short
        t = j.text()
        cases = [l for l in t.splitlines() if l.startswith("CASE ")]
        finished = "PROBE-DONE" in t
        n = max(0, len(cases) - (0 if finished else 1))
        seen.add(f"{name}_cases", n)
        seen.add(f"{name}_processes", 1)
        for l in t.splitlines():
            if l.startswith("COUNT "):
                _, k, v = l.split()
                seen.add(f"{name}_{k}", int(v))
            elif l.startswith("KEY "):
                run.keys.add(int(l[4:]) ^ (j.salt << 40))
        run.result["evals"] += n
        run.result["cases"] += n
        m = MIRI_UB.search(t)
        last = cases[-1] if cases else "no case"
        where = ""
        if m:
            fr = re.findall(r"^\s+(?:-->|at) (/repo/\S+)", t[m.start():], re.M)
            where = "; " + " <- ".join(fr[:3])
        v = re.search(r"^PROBE-VIOLATION (.*)$", t, re.M)
        if v:
            res[1] = res[1] or f"{name}: {v.group(1)[:1200]}"
            if not results:
                seen.note(f"{j.name}: {v.group(1)[:300]} (for other checks to judge)")
        elif m and (m.group(1).startswith("Undefined") or m.group(1).startswith("memory leaked")):
            res[0] = res[0] or f"Miri ({j.flags or 'default flags'}{', ' + j.what + ' machine' if j.what else ''}) in {last}: {m.group(1)[:500]}{where}"
        elif m:
            seen.note(f"{j.name} in {last}: {m.group(1)[:300]}{where}")
            seen.add(f"{name}_stopped_early", 1)
        elif not finished:
            seen.note(f"{j.name}: ended without a verdict (exit {j.rc}{', too slow' if j.late else ''}): {t[-400:]}")
            seen.add(f"{name}_stopped_early", 1)
        shutil.rmtree(j.dir, ignore_errors=True)
        return res[1] if results else res[0]

    run_jobs(jobs, 8, done)
    return res


CANARIES = {"asan": ["uaf", "oob", "leak"], "tsan": ["race"], "msan": ["uninit"], "miri": ["uaf", "oob", "uninit", "leak", "race"]}


def canaries(kinds, seen):
    """The monitors report deliberate faults."""
    jobs = []
    for kind in kinds:
        for k in CANARIES[kind]:
            d = os.path.join(seen.run.dir, f"canary-{kind}-{k}")
            os.makedirs(d)
            if kind == "miri":
                j = Job(f"{kind} {k}", miri_cmd(["canary", k]), miri_env(), os.path.join(c.ROOT, "probe"), 100, d)
            else:
                j = Job(f"{kind} {k}", [exe(kind), "canary", k], san_env(kind, os.path.join(d, "san")), c.ROOT, 100, d)
            jobs.append(j)
    bad = []

    def done(j):
        t = j.text()
        ok = any(parse_log(f) for f in glob.glob(os.path.join(j.dir, "san*"))) or bool(MIRI_UB.search(t))
        if ok:
            seen.add("deliberate_faults_reported", 1)
        else:
            bad.append(j.name)
        return None

    run_jobs(jobs, 8, done)
    if bad:
        raise c.Broken("deliberate faults went unnoticed: " + ", ".join(bad))


def setup():
    build(["asan", "tsan", "msan", "miri", "miri-rel", "miri-be", "miri-w32"])


def c23(tier, seed):
    t0 = time.time()
    c.build({"harness", "tools", "shim"})
    build(["asan", "tsan", "msan", "miri", "miri-rel", "miri-w32"])
    run = c.Run("C23", tier, seed)
    seen = Seen(run)
    quick = tier != "thorough"
    k = 1.0 if quick else c.THOROUGH_SECS / 330
    viol = None
    try:
        canaries(["asan", "tsan", "msan", "miri"], seen)
        viol = san_stage("tsan", TSAN_PROPS, 4 if quick else 40 * k, 2 if quick else 3, seen, seed, tier)
        viol = viol or san_stage("asan", ASAN_PROPS, 3 if quick else 25 * k, 2, seen, seed, tier)
        viol = viol or san_stage("msan", MSAN_PROPS, 3 if quick else 15 * k, 2, seen, seed, tier)
        if not viol:
            viol = miri_stage(["", "", "", "w32"], 35 if quick else 150 * k, 8, seen, seed)[0]
        if not viol and not quick:
            viol = miri_stage(["", "", "", "", "w32"], 60 * k, 8, seen, seed + 500, "record", 3)[0]
            viol = viol or miri_stage(["", "w32", "", ""], 40 * k, 8, seen, seed + 700, "sinks", 5)[0]
            viol = viol or miri_stage(["", "", "w32"], 30 * k, 8, seen, seed + 900, "hostile", 1)[0]
        seen.counts["notes"] = len(seen.notes)
        more = {"observed_" + a: b for a, b in sorted(seen.counts.items())}
        more["rule"] = "inputs or outcomes (interleavings included) that differ, each under AddressSanitizer with LeakSanitizer, ThreadSanitizer, MemorySanitizer or Miri"
        c.evidence("C23", tier, seed, run, t0, 1 if viol else 0, more)
        if viol:
            c.report("C23", tier, seed, viol, "x")
            return 1
        for kind in ("asan", "tsan", "msan", "miri"):
            if not seen.counts.get(f"{kind}_cases"):
                c.log(f"INCONCLUSIVE: {kind} observed nothing")
                return 2
        for f in c.known():
            if f["property"] == "C23":
                print(f"KNOWN-FINDING: property=C23 {f['what']}", flush=True)
        c.log(f"C23 {tier}: held on {run.result['evals']} cases ({seen.counts}) in {time.time() - t0:.1f} s")
        return 0
    finally:
        run.close()


def c09(run, tier, seed):
    """The same files on machines of another byte order and word size."""
    build(["miri-be", "miri-w32"])
    seen = Seen(run)
    k = 1.0 if tier != "thorough" else c.THOROUGH_SECS / 330
    ub, wrong = miri_stage(["be", "w32", "be", "w32", "be"], 32 if tier != "thorough" else 150 * k, 8, seen, seed, results=True)
    if wrong:
        run.viols.append((wrong, "machine"))
    for m, (_, what) in MACHINES.items():
        if not wrong and not seen.counts.get("miri_" + re.sub(r"\W", "_", what) + "_cases"):
            run.errors.append(f"the {what} run observed nothing")
    return {"observed_" + a: b for a, b in sorted(seen.counts.items())}

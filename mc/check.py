#!/usr/bin/env python3
"""Driver of the model-checking harnesses.

  python3 mc/check.py C01              quick tier (VERIF_TIER=thorough for the deep one)
  python3 mc/check.py C01 --replay F   re-execute the recorded violating case
  python3 mc/check.py --build          build every harness (setup)

Each check compiles its harnesses against the sources in /repo/src as they are now, runs all shards
of the enumeration, confirms every reported violation by executing that single case again, and
rewrites evidence/<id>.json.
"""
import concurrent.futures as cf
import contextlib
import hashlib, json, os, shutil, signal, struct, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.environ.get("MC_BUILD", os.path.join(VERIF, ".build"))
REPLAYS = os.path.join(VERIF, "replays")
EVID = os.environ.get("MC_EVIDENCE", os.path.join(VERIF, "evidence"))
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
NPROC = int(os.environ.get("MC_NPROC", str(os.cpu_count() or 8)))
sys.path.insert(0, HERE)

VARIANTS = {
    # what users run: optimised, assertions off; container bounds checks on
    "rel": ["-O2", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS"],
    # memory and undefined-behaviour errors become failures
    "asan": ["-O1", "-g1", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    # the library's own assertions become exceptions
    "dbg": ["-O1", "-DCFT_ASSERT_FAIL_THROWS", "-D_GLIBCXX_ASSERTIONS", "-include", "string"],
}
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=99", LC_ALL="C.UTF-8", TZ="UTC",
           PYTHONDONTWRITEBYTECODE="1")


locks, locks_guard = {}, threading.Lock()


def log(*a):
    print(*a, flush=True)


def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "src"), os.path.join(HERE, "common")):
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x != "__pycache__")
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


def compile_one(src, variant, defs, libs, outdir, optional=False):
    flags = VARIANTS[variant] + list(defs)
    key = hashlib.sha256(repr((src, flags, libs)).encode() + open(os.path.join(HERE, src), "rb").read()).hexdigest()[:10]
    out = os.path.join(outdir, f"{os.path.splitext(os.path.basename(src))[0]}-{variant}-{key}")
    with locks_guard:
        lock = locks.setdefault(out, threading.Lock())
    with lock:
        if not os.path.exists(out):
            if not compile_to(out, src, flags, libs, optional):
                return None
    return out


def compile_to(out, src, flags, libs, optional=False):
    tmp = f"{out}.{os.getpid()}.tmp"
    cmd = ["g++", "-std=c++11", "-w"] + flags + ["-I" + REPO + "/src", "-I" + HERE + "/common",
           os.path.join(HERE, src), "-o", tmp, "-lfmt", "-ldl"] + list(libs)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0 and optional:
        return False
    if r.returncode != 0:
        log("BUILD FAILED:", " ".join(cmd))
        log(r.stdout[-6000:])
        sys.exit(2)
    os.replace(tmp, out)
    return True


def outdir():
    d = os.path.join(BUILD, tree_hash())
    if not os.path.isdir(d):
        if os.path.isdir(BUILD):  # drop builds of other trees
            for x in os.listdir(BUILD):
                p = os.path.join(BUILD, x)
                if os.path.isdir(p) and time.time() - os.path.getmtime(p) > 3600:
                    shutil.rmtree(p, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
    return d


class Job:
    """One harness configuration, run as several shards."""

    def __init__(self, spec, prop, tier, seed, out):
        self.spec, self.prop, self.tier, self.seed, self.out = spec, prop, tier, seed, out
        self.name = spec["name"]
        self.shards = spec.get("shards", NPROC)
        self.hang = spec.get("hang", 25)
        self.cmd = None

    def build(self):
        s = self.spec
        if s.get("kind", "cpp") == "cpp":
            exe = compile_one(s["src"], s.get("variant", "rel"), s.get("defs", []), s.get("libs", []), self.out, s.get("optional", False))
            if exe is None:
                return None
            self.cmd = [exe]
        else:
            for b in s.get("needs", []):
                with locks_guard:
                    lock = locks.setdefault(b, threading.Lock())
                with lock:
                    builders[b](self.out)
            self.cmd = [s.get("python", sys.executable), os.path.join(HERE, s["src"]), "--build", self.out]
        self.cmd += s.get("args", [])
        return self

    def argv(self, extra):
        return self.cmd + ["--tier", self.tier, "--seed", str(self.seed)] + extra


def build_accft(out):
    p = os.path.join(out, "accft")
    if not os.path.exists(p):
        tmp = f"{p}.{os.getpid()}.tmp"
        r = subprocess.run(["g++", "-std=c++11", "-w", "-O2", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-I" + REPO + "/src",
                            REPO + "/src/main.cpp", "-o", tmp, "-lfmt"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            log("BUILD FAILED accft\n" + r.stdout[-4000:])
            sys.exit(2)
        os.replace(tmp, p)


PYVENV = "/opt/vp/venv/bin/python"


def build_py(out):
    d = os.path.join(out, "py", "pycft")
    if os.path.exists(os.path.join(d, ".done")):
        return
    os.makedirs(d, exist_ok=True)
    q = subprocess.run([PYVENV, "-c", "import pybind11,sysconfig;print(pybind11.get_include());print(sysconfig.get_paths()['include']);print(sysconfig.get_config_var('EXT_SUFFIX'))"],
                       stdout=subprocess.PIPE, text=True, check=True).stdout.split("\n")
    inc, pyinc, suf = q[0], q[1], q[2]
    tmp = os.path.join(d, f".tmp{os.getpid()}")
    r = subprocess.run(["g++", "-std=c++14", "-w", "-O1", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-shared", "-fPIC", "-fvisibility=hidden",
                        "-I" + inc, "-I" + pyinc, "-I" + REPO + "/src", REPO + "/src/pycft/_bindings.cpp", "-o", tmp, "-lfmt"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        log("BUILD FAILED _bindings\n" + r.stdout[-4000:])
        sys.exit(2)
    os.replace(tmp, os.path.join(d, "_bindings" + suf))
    for f in os.listdir(os.path.join(REPO, "src/pycft")):
        if f.endswith(".py"):
            shutil.copy(os.path.join(REPO, "src/pycft", f), d)
    open(os.path.join(d, ".done"), "w").close()


def build_oracle(out):
    p = os.path.join(out, "libpyoracle.so")
    if not os.path.exists(p):
        tmp = f"{p}.{os.getpid()}.tmp"
        r = subprocess.run(["g++", "-std=c++11", "-w", "-O2", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-shared", "-fPIC", "-I" + REPO + "/src",
                            os.path.join(HERE, "common", "pyoracle.cpp"), "-o", tmp, "-lfmt"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            log("BUILD FAILED pyoracle\n" + r.stdout[-4000:])
            sys.exit(2)
        os.replace(tmp, p)


def build_accft_asan(out):
    p = os.path.join(out, "accft-asan")
    if not os.path.exists(p):
        tmp = f"{p}.{os.getpid()}.tmp"
        r = subprocess.run(["g++", "-std=c++11", "-w"] + VARIANTS["asan"] + ["-I" + REPO + "/src", REPO + "/src/main.cpp", "-o", tmp, "-lfmt"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            log("BUILD FAILED accft-asan\n" + r.stdout[-4000:])
            sys.exit(2)
        os.replace(tmp, p)


def build_iofault(out):
    p = os.path.join(out, "iofault.so")
    if not os.path.exists(p):
        tmp = f"{p}.{os.getpid()}.tmp"
        subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", os.path.join(HERE, "common", "iofault.c"), "-o", tmp, "-ldl"], check=True)
        os.replace(tmp, p)


builders = {"accft-asan": build_accft_asan, "iofault": build_iofault, "accft": build_accft, "py": build_py, "oracle": build_oracle}


@contextlib.contextmanager
def scratch():
    """Directory for the files the harnesses read and write: on tmpfs if there is one."""
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    d = tempfile.mkdtemp(prefix="mc-verif-", dir=base)
    ENV["MC_SCRATCH"] = d
    try:
        yield
    finally:
        shutil.rmtree(d, ignore_errors=True)


def read_slot(path):
    try:
        with open(path, "rb") as f:
            return struct.unpack("<QQQQ", f.read(32))
    except Exception:
        return (2**64 - 1, 0, 0, 0)


def parse_out(path):
    recs = []
    try:
        with open(path, errors="replace") as f:
            for l in f:
                try:
                    recs.append(json.loads(l))
                except Exception:
                    pass
    except FileNotFoundError:
        pass
    return recs


def run_proc(argv, slot, outp, errp, wall_case, wall_total, hang):
    """Runs one process; returns (status, rc): status in ok|violation|crash|hang|timeout."""
    with open(errp, "wb") as e, open(os.devnull, "rb") as dn:
        p = subprocess.Popen(argv + ["--slot", slot, "--out", outp, "--hang", str(hang)], stdin=dn, stdout=e, stderr=e,
                             env=ENV, start_new_session=True, cwd=os.path.dirname(slot))
    t0 = time.time()
    last, tlast = None, time.time()
    delay = 0.005
    while True:
        rc = p.poll()
        if rc is not None:
            break
        c = read_slot(slot)[0]
        now = time.time()
        if c != last:
            last, tlast = c, now
        if now - tlast > wall_case or now - t0 > wall_total:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            return ("hang" if now - tlast > wall_case else "timeout"), -9
        time.sleep(delay)
        delay = min(0.1, delay * 1.5)
    try:
        os.killpg(p.pid, signal.SIGKILL)  # anything the harness left behind
    except (ProcessLookupError, PermissionError):
        pass
    if rc == 0:
        return "ok", 0
    if rc == 1 and any("stats" in r for r in parse_out(outp)):
        return "violation", 1
    if rc == 97:
        return "hang", 97
    return "crash", rc


def tail(path, n=1500):
    try:
        with open(path, errors="replace") as f:
            s = f.read()
        # the sanitizer's first lines carry the diagnosis
        i = s.find("ERROR: AddressSanitizer")
        i = i if i >= 0 else s.find("runtime error")
        if i >= 0:
            return s[max(0, i - 120): i + n]
        return s[-n:]
    except FileNotFoundError:
        return ""


def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def main():
    if sys.argv[1:2] == ["--build"]:
        from specs import CHECKS
        out = outdir()
        jobs = [Job(s, p, "quick", 1, out) for p, c in CHECKS.items() for s in c["jobs"]]
        for b in builders.values():
            b(out)
        with cf.ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(lambda j: j.build(), jobs))
        log("built", len(jobs), "harness configurations in", out)
        return 0

    from specs import CHECKS
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    check = CHECKS[prop]
    out = outdir()
    t0 = time.time()

    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    if replay:
        rec = json.load(open(replay))
        tier, seed = rec["tier"], rec["seed"]
        spec = next(s for s in check["jobs"] if s["name"] == rec["job"])
        job = Job(spec, prop, tier, seed, out).build()
        with scratch():
            return subprocess.run(job.argv(rec["select"]), env=ENV, cwd=ENV["MC_SCRATCH"]).returncode

    only = sys.argv[sys.argv.index("--job") + 1] if "--job" in sys.argv else None
    specs = [s for s in check["jobs"] if tier in s.get("tiers", ("quick", "thorough")) and (only is None or s["name"] == only)]
    jobs = [Job(s, prop, tier, seed, out) for s in specs]
    with cf.ThreadPoolExecutor(NPROC) as ex:
        built = list(ex.map(lambda j: j.build(), jobs))
    skipped = [j.name for j, b in zip(jobs, built) if b is None]
    jobs = [j for j, b in zip(jobs, built) if b is not None]
    if skipped:  # the extension point this exploration needs is gone
        log("NOTE: not applicable to this tree:", ", ".join(skipped))
    t_build = time.time() - t0
    run = os.path.join(BUILD, f"run-{prop}-{os.getpid()}")
    os.makedirs(run)
    try:
        with scratch():
            return explore(prop, tier, seed, check, jobs, run, t0, t_build)
    finally:
        shutil.rmtree(run, ignore_errors=True)


def explore(prop, tier, seed, check, jobs, run, t0, t_build):
    wall_total = 860 - t_build if tier == "quick" else 6 * 3600
    wall_case = 150
    findings, errors, known_hits = [], [], []
    known = load_known(prop)
    stats = {}
    stop = [False]

    for ji, job in enumerate(jobs):
        bm = os.path.join(run, f"bm-{ji}")
        with open(bm, "wb") as f:
            f.truncate(1 << (23 if tier == "quick" else 26))
        job.bm = bm
        stats[ji] = {"total_cases": 0, "executed": 0, "transitions": 0, "validated": 0, "counters": {}, "samples": [], "shards_done": 0, "wall_s": 0.0}

    def paths(tag):
        return os.path.join(run, "slot-" + tag), os.path.join(run, "out-" + tag), os.path.join(run, "err-" + tag)

    def execute(job, select, tag, hang, wc=None, bm=True):
        sl, op, ep = paths(tag)
        for x in (sl, op):
            if os.path.exists(x):
                os.unlink(x)
        argv = job.argv(select + (["--bitmap", job.bm] if bm else []))
        st, rc = run_proc(argv, sl, op, ep, wc or wall_case, wall_total, hang)
        return st, rc, read_slot(sl), parse_out(op), tail(ep)

    def report(job, select, case, what, desc):
        for k in known:
            if k.get("match") and all(m in what or m in desc for m in k["match"]):
                known_hits.append(k)
                return
        os.makedirs(REPLAYS, exist_ok=True)
        p = os.path.join(REPLAYS, f"{prop}-{job.name}-{case}.json")
        rec = {"property": prop, "job": job.name, "tier": tier, "seed": seed, "select": select, "case": case,
               "what": what, "desc": desc, "command": job.argv(select),
               "replay": f"cd /verif && python3 mc/check.py {prop} --replay {p}"}
        with open(p, "w") as f:
            json.dump(rec, f, indent=1)
        findings.append((p, what, desc))

    def shard(ji, k):
        job = jobs[ji]
        if stop[0]:
            return
        ts = time.time()
        base = ["--shard", str(k), "--nshards", str(job.shards)]
        tag = f"{ji}-{k}"
        st, rc, slot, recs, err = execute(job, base, tag, job.hang)
        if st == "timeout":
            errors.append(f"{job.name} shard {k}: wall budget exhausted")
            return
        viol = [r for r in recs if "violation" in r]
        if st == "ok" or (st == "violation" and viol):
            s = next((r["stats"] for r in recs if "stats" in r), None)
            if s is None:
                errors.append(f"{job.name} shard {k}: no statistics ({err[-300:]})")
                return
            d = stats[ji]
            d["total_cases"] = s["total_cases"]
            for x in ("executed", "transitions", "validated"):
                d[x] += s[x]
            for c, v in s["counters"].items():
                d["counters"][c] = (max(d["counters"].get(c, 0), v) if c.startswith("max_") else d["counters"].get(c, 0) + v)
            if len(d["samples"]) < 4:
                d["samples"] += s["samples"][:2]
            d["shards_done"] += 1
            d["wall_s"] = max(d["wall_s"], time.time() - ts)
            for v in viol[:3]:
                confirm(job, k, v["violation"], v["what"], v.get("desc", ""), base)
            return
        # crash or hang: the slot names the case
        case = slot[0]
        if case == 2**64 - 1:
            # outside any case (enumeration code itself, or start-up): rerun once to be sure
            st2, rc2, slot2, recs2, err2 = execute(job, base, tag + "r", job.hang)
            if st2 == "ok":
                return
            errors.append(f"{job.name} shard {k}: {st}/{rc} outside any case: {err[-600:]}")
            return
        what = f"{'no termination' if st == 'hang' else 'abnormal end (status %d)' % rc} {err.strip()[:700]}"
        confirm(job, k, case, what, "", base, abnormal=st)

    def confirm(job, k, case, what, desc, base, abnormal=None):
        sel = ["--case", str(case)]
        tag = f"c-{job.name}-{k}-{case}"
        st, rc, slot, recs, err = execute(job, sel, tag, 60 if abnormal == "hang" else job.hang * 2, wc=400, bm=False)
        d = next((r["desc"] for r in recs if "case" in r), desc)
        v = next((r for r in recs if "violation" in r), None)
        if st != "ok":
            w = v["what"] if v else (f"{'no termination' if st in ('hang', 'timeout') else 'abnormal end (status %d)' % rc} {err.strip()[:700]}")
            report(job, sel, case, w, d)
        else:
            # Not reproducible alone: depends on what ran before it in the same process. Run the shard again.
            st2, rc2, slot2, recs2, err2 = execute(job, base, tag + "-again", job.hang, bm=False)
            if (abnormal and st2 == st and slot2[0] == case) or (abnormal and st2 in ("crash", "hang")) or \
                    any(r.get("violation") == case for r in recs2):
                report(job, base, case, "[only after earlier executions in the same process] " + what, d)
            else:
                errors.append(f"{job.name} case {case}: not reproducible: {what[:300]}")
        if findings:
            stop[0] = True

    tasks = [(ji, k) for ji, j in enumerate(jobs) for k in range(j.shards)]
    with cf.ThreadPoolExecutor(NPROC) as ex:
        futs = [ex.submit(shard, *t) for t in tasks]
        for f in futs:
            f.result()

    def popcount(path):
        n = 0
        with open(path, "rb") as f:
            while True:
                b = f.read(1 << 20)
                if not b:
                    break
                if b.count(0) != len(b):
                    n += bin(int.from_bytes(b, "little")).count("1")
        return n

    per_job, tot = [], {"executed": 0, "transitions": 0, "validated": 0, "states": 0}
    complete = not errors and not findings
    samples = []
    for ji, job in enumerate(jobs):
        d = stats[ji]
        n = popcount(job.bm)
        done = d["shards_done"] == job.shards and d["executed"] == d["total_cases"]
        if not done and not findings and not errors:
            errors.append(f"{job.name}: {d['executed']} of {d['total_cases']} cases executed, {d['shards_done']} of {job.shards} shards")
        complete = complete and done
        tot["states"] += n
        for x in ("executed", "transitions", "validated"):
            tot[x] += d[x]
        samples += [f"{job.name}: {s[:600]}" for s in d["samples"][:3]]
        per_job.append({"job": job.name, "variant": job.spec.get("variant", job.spec.get("kind", "rel")), "cases_enumerated": d["total_cases"],
                        "cases_executed": d["executed"], "distinct_states": n, "transitions": d["transitions"],
                        "counters": d["counters"], "slowest_shard_s": round(d["wall_s"], 1)})
    level = check["level"]
    cov = {"bounds": check["bounds"][tier] if isinstance(check["bounds"], dict) else check["bounds"], "jobs": per_job,
           "samples": samples[:8], "exhaustive": bool(complete)}
    if level == "model_checking":
        cov.update(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["validated"])
    else:
        cov.update(evaluations=tot["executed"], distinct_nontrivial=tot["states"], rule=check["rule"])
    os.makedirs(EVID, exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": check.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(findings)}
    tmp = os.path.join(EVID, f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, prop + ".json"))

    for k in {json.dumps(k, sort_keys=True) for k in known_hits}:
        log(f"KNOWN-FINDING: property={prop} {json.loads(k).get('what', '')}")
    for pj in per_job:
        log(f"  {pj['job']}: {pj['cases_executed']}/{pj['cases_enumerated']} cases, {pj['distinct_states']} states, "
            f"{pj['transitions']} transitions, {pj['slowest_shard_s']}s {pj['counters']}")
    if findings:
        for p, what, desc in findings[:5]:
            log(f"  {what}\n    in {desc[:800]}")
            log(f"VIOLATION property={prop} replay={p}")
        return 1
    if errors:
        for e in errors[:10]:
            log("ERROR:", e)
        return 2
    log(f"OK property={prop} tier={tier} states={tot['states']} transitions={tot['transitions']} executions={tot['executed']} wall={time.time() - t0:.1f}s (build {t_build:.1f}s)")
    return 0


if __name__ == "__main__":
    sys.exit(main())

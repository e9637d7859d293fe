#!/usr/bin/env python3
"""Runs the check of one property: builds the library from /repo's working tree in the variants the property needs,
runs its harness in parallel shards and turns the observations into a verdict.

  check.py <ID> [quick|thorough]        the registered check
  check.py <ID> --replay FILE           re-run one recorded case, verbosely
exit: 0 held, 1 violated (with VIOLATION lines), 2 error of the check itself
"""
import sys, os, json, subprocess, threading, tempfile, shutil, time, re, concurrent.futures as cf
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS

GCC = ["-funsigned-char", "-std=c17", "-Wno-pointer-sign", "-w", "-fno-math-errno", "-fno-builtin", "-pthread"]
# every way the code under test may allocate
WRAP = "-Wl," + ",".join("--wrap=" + f for f in ("malloc", "calloc", "realloc", "free", "strdup", "__strdup", "strndup", "__strndup", "reallocarray", "aligned_alloc", "posix_memalign", "memalign", "asprintf", "vasprintf"))
VARIANTS = {
    # as the project builds it
    "rel": ["-O3", "-fpic", "-g"],
    # memory errors and undefined behaviour end the run; uninitialised locals hold a pattern
    "asan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=alignment",
             "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern"],
    "tsan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=thread", "-DVF_NO_LEDGER"],
    # decisions, addresses and outputs that depend on memory nobody initialised end the run. compiled by clang, so this is
    # also a second compiler with other choices where the language leaves them
    "msan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=memory", "-fsanitize-memory-track-origins",
             "-fno-sanitize-memory-param-retval", "-Dsp_channel_count_limit=5",
             # what gcc accepts is no reason to leave this variant out
             "-Wno-implicit-function-declaration", "-Wno-int-conversion", "-Wno-implicit-int"],
}
COMPILER = {"msan": "clang"}
ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:detect_odr_violation=0:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=1:handle_abort=1:handle_segv=1:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "MSAN_OPTIONS": "halt_on_error=1:exitcode=99:allocator_may_return_null=1:handle_abort=1:handle_segv=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=99:second_deadlock_stack=1:report_signal_unsafe=0:history_size=4",
}

LOCK = threading.Lock()

class CheckError(Exception):
    pass

def again(f):
    """repeats what fails because the system currently allows no more processes"""
    for i in range(60):
        try:
            return f()
        except BlockingIOError:
            time.sleep(1)
    return f()


class Pool(cf.ThreadPoolExecutor):
    """goes on with fewer threads where the system currently allows no more"""
    def _adjust_thread_count(self):
        for i in range(60):
            try:
                return super()._adjust_thread_count()
            except RuntimeError:
                if self._threads:
                    return
                time.sleep(1)
        raise CheckError("no threads can be started")


def run(cmd, **kw):
    p = again(lambda: subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw))
    return p.returncode, p.stdout

def includes(tmp):
    inc = os.path.join(tmp, "include")
    os.makedirs(inc, exist_ok=True)
    with LOCK:
      if not os.path.islink(os.path.join(inc, "sph")):
        os.symlink(os.path.join(REPO, "source/c/foreign/sph-sc-lib/sph-sp"), os.path.join(inc, "sph"))
    c = os.path.join(REPO, "source/c")
    return ["-I" + os.path.join(c, "foreign"), "-I" + os.path.join(c, "foreign/sph-sc-lib"),
            "-I" + os.path.join(REPO, "source/c-precompiled"), "-I" + inc]

def compile_one(tmp, src, obj, flags, cc="gcc"):
    if not os.path.exists(src):
        raise CheckError("missing source " + src)
    rc, out = run([cc] + GCC + flags + includes(tmp) + ["-I" + os.path.join(VERIF, "src"), "-c", src, "-o", obj])
    if rc:
        raise CheckError("compilation of %s failed:\n%s" % (src, out[-3000:]))
    return obj

LIBS = {}
def library(tmp, variant, flags, cc):
    """one object per set of flags, however many harnesses use it"""
    key = (variant, tuple(flags))
    with LOCK:
        f = LIBS.get(key)
        mine = f is None
        if mine:
            f = LIBS[key] = (cf.Future(), len(LIBS))
    if mine:
        try:
            f[0].set_result(compile_one(tmp, os.path.join(REPO, "source/c-precompiled/sph-sp/main.c"),
                                        os.path.join(tmp, "lib-%d.o" % f[1]), flags, cc))
        except BaseException as e:
            f[0].set_exception(e)
    return f[0].result()

def build(tmp, cfg, variant):
    """library and harness are one static program, so that allocations of both can be intercepted. identical
    definitions that come from the public header are merged by -z muldefs"""
    flags = VARIANTS[variant] + cfg.get("defines", [])
    cc = COMPILER.get(variant, "gcc")
    d = os.path.join(tmp, cfg["harness"], variant)
    os.makedirs(d)
    srcs = [(os.path.join(VERIF, "src/vf.c"), "vf"), (os.path.join(VERIF, "src", cfg["harness"] + ".c"), "harness")]
    for extra in cfg.get("extra", []):
        srcs.append((os.path.join(VERIF, "src", extra + ".c"), extra))
    with Pool(8) as ex:
        lib = ex.submit(library, tmp, variant, flags, cc)
        objs = list(ex.map(lambda s: compile_one(tmp, s[0], os.path.join(d, s[1] + ".o"), flags, cc), srcs))
        objs.insert(0, lib.result())
    exe = os.path.join(d, "harness")
    # the library comes before the harness
    link = [f for f in flags if f.startswith("-fsanitize") or f.startswith("-g")]
    rc, out = run([cc] + objs + link + ["-pthread", "-o", exe, "-Wl,-z,muldefs", WRAP] +
                  ["-Wl,--wrap=" + w for w in cfg.get("wrap", [])] + ["-lm"])
    if rc:
        raise CheckError("link failed:\n" + out[-3000:])
    return exe

def try_build(tmp, cfg, variant):
    """the library only has to be accepted by the compiler of the project"""
    try:
        return build(tmp, cfg, variant)
    except CheckError as e:
        if COMPILER.get(variant, "gcc") == "gcc":
            raise
        print("NOTE variant %s was left out: %s" % (variant, str(e)[:300].replace("\n", " ")))
        return None

def launch(exe, args, timeout, cwd, progress=None):
    env = dict(os.environ, **ENV)
    env["LC_ALL"] = "C"
    cmd = [exe] + args
    if "/tsan/" in exe and shutil.which("setarch"):
        if subprocess.run(["setarch", "-R", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
            cmd = ["setarch", "-R"] + cmd
    p = again(lambda: subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env, cwd=cwd,
                                       start_new_session=True))
    stalled = []
    if progress:
        threading.Thread(target=watch_stall, args=(p, progress, stalled), daemon=True).start()
    try:
        out, _ = p.communicate(timeout=timeout)
        return "stalled" if stalled else p.returncode, out.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        kill(p)
        out, _ = p.communicate()
        return "timeout", out.decode("utf8", "replace")

STALL_S = 45

def kill(p):
    try:
        os.killpg(p.pid, 9)
    except ProcessLookupError:
        pass

def thread_stats(pid):
    """state and cpu ticks of each thread"""
    r = {}
    try:
        for t in os.listdir("/proc/%d/task" % pid):
            try:
                f = open("/proc/%d/task/%s/stat" % (pid, t)).read().rsplit(")", 1)[1].split()
                r[t] = (f[0], int(f[11]) + int(f[12]))
            except (OSError, IndexError):
                pass
    except OSError:
        pass
    return r

def watch_stall(p, progress, stalled):
    """a case in which all threads only sleep for STALL_S seconds will never end. threads that compute, or that
    wait for a processor on a busy machine, are runnable and never count as stalled, however slow they are"""
    last, since, samples, active, cpu0 = None, time.time(), 0, {}, {}
    tick = os.sysconf("SC_CLK_TCK")
    while p.poll() is None:
        time.sleep(0.25)
        name, index, done, in_case = read_progress(progress)
        st = thread_stats(p.pid)
        now = (name, index, done, in_case)
        cpu = {t: c for t, (_, c) in st.items()}
        if now != last or not st or any(s in "TtZX" for s, _ in st.values()):
            last, since, samples, active, cpu0 = now, time.time(), 0, {}, cpu
            continue
        samples += 1
        for t, (s, _) in st.items():
            if s != "S":
                active[t] = active.get(t, 0) + 1
        wall = time.time() - since
        if wall > STALL_S and samples > 2 * STALL_S:
            # waiting by polling with short sleeps takes some time too
            if max(active.values(), default=0) < samples * 0.25 and max((c - cpu0.get(t, 0)) / tick for t, c in cpu.items()) < wall * 0.25:
                stalled.append(1)
                kill(p)
                return
            last = None

def crash_kind(rc, out):
    """a short name that does not depend on line numbers or addresses"""
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", out)
    if m:
        kind = "asan-" + m.group(1)
    elif "WARNING: MemorySanitizer" in out:
        kind = "msan-use-of-uninitialized-value"
    elif "runtime error:" in out:
        m = re.search(r"runtime error: (.*)", out)
        kind = "ubsan-" + re.sub(r"[^a-z]+", "-", re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*", "", m.group(1)).lower()).strip("-")[:50]
    elif "ThreadSanitizer" in out:
        m = re.search(r"ThreadSanitizer: ([^\n(]+)", out)
        kind = "tsan-" + m.group(1).strip().replace(" ", "-")
    else:
        kind = "signal-%d" % -rc if isinstance(rc, int) and rc < 0 else "exit-%s" % rc
    fn = re.search(r"#\d+ 0x[0-9a-f]+ in ((?:sp_|sph_|spline_|quicksort|Fft_)\w*)", out) or re.search(r"#\d+ ((?:sp_|sph_|spline_|quicksort|Fft_)\w*) ", out)
    return kind + (":" + fn.group(1) if fn else "")

def read_progress(path):
    import struct
    try:
        b = open(path, "rb").read()
        name = b[:48].split(b"\0")[0].decode()
        index, done, in_case = struct.unpack("<QQQ", b[48:72])
        return name, index, done, in_case
    except Exception:
        return "?", 0, 0, 0

class Result:
    def __init__(self):
        self.fails, self.evals, self.cases = [], 0, 0
        self.counts, self.sigs, self.samples, self.suites = {}, set(), [], {}
        self.builds, self.prefix = {}, False

def parse(path, res, variant, harness):
    done = False
    try:
        lines = open(path, errors="replace").read().split("\n")
    except OSError:
        return False
    for l in lines:
        f = l.split("\t")
        if f[0] == "FAIL" and len(f) >= 5:
            res.fails.append(dict(key=f[1], suite=f[2], case=int(f[3]), text=f[4], build=variant, harness=harness))
        elif f[0] == "ERROR":
            raise CheckError("harness: " + f[-1])
        elif f[0] == "SAMPLE":
            res.samples.append("[%s %s/%s] %s" % (variant, f[2], f[3], f[4]))
        elif f[0] == "EVALS":
            res.evals += int(f[1])
        elif f[0] == "CASES":
            res.cases += int(f[1])
            res.builds[variant] = res.builds.get(variant, 0) + int(f[1])
        elif f[0] == "COUNT":
            if f[1].startswith("max "):
                res.counts[f[1]] = max(res.counts.get(f[1], 0), int(f[2]))
            else:
                res.counts[f[1]] = res.counts.get(f[1], 0) + int(f[2])
        elif f[0] == "SIG":
            res.sigs.add(harness + f[1])
        elif f[0] == "SUITE":
            s = res.suites.setdefault(f[1] if not res.prefix else harness + "/" + f[1], [0, 0.0])
            s[0] += int(f[2]); s[1] = max(s[1], float(f[3]))
        elif f[0] == "DONE":
            done = True
    return done

def shard_job(tmp, exe, variant, shard, shards, seed, tier, cfg, res_lock, res):
    d = os.path.join(tmp, "run-%s-%s-%d" % (cfg["harness"], variant, shard))
    scratch = os.path.join(d, "scratch")
    os.makedirs(scratch)
    out, prog = os.path.join(d, "out"), os.path.join(d, "progress")
    base = ["--seed", str(seed), "--build", variant, "--scratch", scratch] + (["--thorough"] if tier == "thorough" else ["--scale", str(cfg.get("scale", 1))])
    timeout = cfg.get("timeout", 200) if tier == "quick" else cfg.get("timeout_thorough", 3000)
    rc, log = launch(exe, base + ["--out", out, "--progress", prog, "--shard", str(shard), "--shards", str(shards * cfg.get("part", 1))], timeout, scratch, prog)
    with res_lock:
        done = parse(out, res, variant, cfg["harness"])
    if rc == 0 and done:
        return
    suite, index, ndone, in_case = read_progress(prog)
    if rc == 70 or "HARNESS ERROR" in log:
        raise CheckError("harness error in %s/%d: %s" % (suite, index, log[-1500:]))
    if rc == "stalled":
        with res_lock:
            res.fails.append(dict(key="hang:" + suite, suite=suite, case=index, build=variant, harness=cfg["harness"],
                                  text="all threads were asleep for %d s without any progress" % STALL_S))
        return
    if rc == "timeout":
        # decide about a hang only if the one case does not finish alone either
        rc2, log2 = launch(exe, base + ["--out", out + "2", "--progress", prog + "2", "--suite", suite, "--case", str(index)],
                           cfg.get("hang_timeout", 60), scratch)
        if rc2 == 0:
            raise CheckError("the run exceeded %d s in %s/%d but the case alone finishes: inconclusive" % (timeout, suite, index))
        if rc2 == "timeout":
            with res_lock:
                res.fails.append(dict(key="hang:" + suite, suite=suite, case=index, build=variant, harness=cfg["harness"],
                                      text="does not finish within %d s, twice" % cfg.get("hang_timeout", 60)))
            return
        rc, log = rc2, log2
    kind = crash_kind(rc, log)
    if kind.startswith("signal-9"):
        raise CheckError("harness was killed in %s/%d" % (suite, index))
    with res_lock:
        res.fails.append(dict(key="crash:%s:%s" % (suite, kind), suite=suite, case=index, build=variant, harness=cfg["harness"],
                              text="terminated by %s" % kind, log=log[-6000:]))

def known_findings(pid):
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    for l in open(path):
        l = l.strip()
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
        if m and m.group(1) == pid:
            known[m.group(2)] = m.group(3)
    return known

def main():
    t0 = time.time()
    pid = sys.argv[1]
    cfg = CHECKS[pid]
    replay = None
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    rest = sys.argv[2:]
    if rest and rest[0] == "--replay":
        replay = json.load(open(rest[1]))
        tier, seed = replay["tier"], replay["seed"]
    elif rest:
        tier = rest[0]
    tmp = tempfile.mkdtemp(prefix="vf-%s-" % pid)
    code = 2
    try:
        code = replay_case(pid, cfg, replay, tmp) if replay else check(pid, cfg, tier, seed, tmp, t0)
    except CheckError as e:
        print("ERROR property=%s %s" % (pid, e))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)

def replay_case(pid, cfg, r, tmp):
    if "sweep" in cfg:
        cfg = next(c for c in CHECKS.values() if c.get("harness") == r["harness"])
    exe = build(tmp, cfg, r["build"])
    rc, log = launch(exe, ["--seed", str(r["seed"]), "--build", r["build"], "--scratch", tmp, "--suite", r["suite"],
                           "--case", str(r["case"])] + (["--thorough"] if r["tier"] == "thorough" else []), 600, tmp)
    print(log)
    return 1 if rc != 0 or "\nFAIL\t" in "\n" + log else 0

def check(pid, cfg, tier, seed, tmp, t0):
    jobs = cfg.get("jobs", 8)
    parts = [CHECKS[p] for p in cfg["sweep"]] if "sweep" in cfg else [cfg]
    todo = []
    for c in parts:
        for v in cfg["variants"]:
            if "sweep" in cfg:
                c = dict(c, scale=cfg["scale"][tier], timeout=cfg["timeout"][tier], part=cfg["part"][tier])
                todo.append((c, v, cfg["variants"][v]))
            else:
                todo.append((c, v, cfg["variants"][v]))
    with Pool(8) as ex:
        exes = list(ex.map(lambda t: try_build(tmp, t[0], t[1]), todo))
    t_build = time.time() - t0
    res, lock = Result(), threading.Lock()
    res.prefix = "sweep" in cfg
    runs = [(c, v, s, n, exe) for (c, v, n), exe in zip(todo, exes) if exe for s in range(n)]
    with Pool(jobs) as ex:
        errors = []
        for f in [ex.submit(shard_job, tmp, exe, v, s, n, seed, "quick" if "sweep" in cfg else tier, c, lock, res) for c, v, s, n, exe in runs]:
            try:
                f.result()
            except CheckError as e:
                # what other shards observed still counts
                errors.append(e)
    if "sweep" in cfg:
        # only what concerns memory and undefined behaviour. results are the business of the other checks
        res.fails = [f for f in res.fails if re.match(r"crash:.*:((asan|msan|ubsan)-|signal-)", f["key"]) or re.search(r":(leak|outside)$", f["key"])]
    known = known_findings(pid)
    new, seen_known = {}, {}
    for f in res.fails:
        if f["key"] in known:
            seen_known.setdefault(f["key"], f)
        else:
            new.setdefault(f["key"], f)
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, known[k]))
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    for i, (k, f) in enumerate(sorted(new.items())):
        path = "replay/%s-%d.json" % (pid, i)
        json.dump(dict(property=pid, tier=tier, seed=seed, rerun="python3 check.py %s --replay %s" % (pid, path), **f),
                  open(os.path.join(VERIF, path), "w"), indent=1)
        if i < 12:
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  %s (%s %s/%s): %s" % (k, f["build"], f["suite"], f["case"], f["text"][:400]))
            if f.get("log"):
                print("  " + "\n  ".join(f["log"].split("\n")[:25]))
    rule = cfg["rule"]
    ev = dict(property=pid, tier=tier, seed=seed, level=cfg.get("level", "exploration"),
              coverage=dict(evaluations=res.evals, distinct_nontrivial=len(res.sigs), rule=rule, samples=res.samples[:12],
                            cases=res.cases, cases_per_build=res.builds,
                            cases_per_suite={k: v[0] for k, v in sorted(res.suites.items())}, observed=res.counts),
              assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 2), build_s=round(t_build, 2),
              violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if new:
        return 1
    if errors:
        raise errors[0]
    # a run that observed too little decides nothing
    if res.evals == 0 or not res.sigs or not res.samples:
        raise CheckError("nothing observed")
    for name, n in cfg.get("require", {}).items():
        if res.counts.get(name, 0) < n:
            raise CheckError("observed only %d of %s, at least %d expected" % (res.counts.get(name, 0), name, n))
    print("held property=%s tier=%s seed=%d: %d evaluations, %d distinct situations, %d cases, %.1f s (build %.1f s)" %
          (pid, tier, seed, res.evals, len(res.sigs), res.cases, time.time() - t0, t_build))
    return 0

if __name__ == "__main__":
    main()

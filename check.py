#!/usr/bin/env python3
"""Driver of every check: builds the harnesses of one property against /repo's working tree, runs them
under instrumentation, reads their event logs, and decides.

  check.py P01                 run the check (VERIF_SEED, VERIF_TIER from the environment)
  check.py P01 --replay FILE   run again the single case a replay file names

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2: the check itself failed.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS, VARIANTS          # noqa: E402

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
NPROC = max(1, min(8, os.cpu_count() or 1))
T0 = time.time()

def die(msg):
    print("CHECK ERROR: " + msg, flush=True)
    sys.exit(2)

def known_findings(pid):
    ks = {}
    p = os.path.join(HERE, "known_findings.txt")
    for line in open(p):
        m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line)
        if m and m.group(1) == pid: ks[m.group(2)] = m.group(3).strip()
    return ks

def build(src, variant, scratch):
    v = VARIANTS[variant]
    out = os.path.join(scratch, os.path.basename(src).replace(".cc", "") + "." + variant)
    cmd = v["cc"] + ["-I" + REPO + "/include", "-I" + HERE + "/lib", os.path.join(HERE, "harness", src), "-o", out] + v.get("ld", [])
    twin = None
    if v.get("twin"):       # a second program that differs only in these flags, beside the first
        twin = subprocess.Popen(cmd[:cmd.index("-o")] + v["twin"] + ["-o", out + ".twin"] + v.get("ld", []), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if twin and twin.wait() and r.returncode == 0: return out, 1, "the twin does not build", " ".join(cmd)
    return out, r.returncode, r.stdout, " ".join(cmd)

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=0:detect_stack_use_after_return=0:handle_abort=1:hard_rss_limit_mb=6000",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "TSAN_OPTIONS": "exitcode=97:halt_on_error=0:second_deadlock_stack=1",
    "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "MKL_THREADING_LAYER": "SEQUENTIAL",
}

class Agg:
    def __init__(self):
        self.lock = threading.Lock()
        self.counters = {}; self.hashes = set(); self.samples = []; self.viols = []; self.errors = []
        self.done_shards = 0; self.variant_cases = {}
    def viol(self, key, detail, where):
        with self.lock: self.viols.append({"key": key, "detail": detail, **where})

def summarize_crash(rc, err):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m: return "asan-" + m.group(1)
    m = re.search(r"runtime error: ([^\n]+)", err)
    if m: return "ubsan-" + re.sub(r"[^a-z]+", "-", re.sub(r"0x[0-9a-f]+|\d+", "", m.group(1).lower()))[:40].strip("-")
    if "WARNING: ThreadSanitizer" in err: return "tsan"
    m = re.search(r"Assertion [`'](.*?)' failed", err)
    if m: return "assert"
    if rc < 0: return "signal-" + str(-rc)
    return "exit-" + str(rc)

def run_shard(prog, run, variant, frm, to, stride, agg, scratch, idx):
    """Runs cases frm, frm+stride, ... < to; restarts after the case that crashed."""
    cur = frm; crashes = 0
    limit = run.get("case_timeout", 120)
    while cur < to:
        wd = tempfile.mkdtemp(prefix="w", dir=scratch)
        log = os.path.join(wd, "vmon.log"); errf = os.path.join(wd, "vmon.err")
        cwd = os.path.join(wd, "cwd"); os.mkdir(cwd)
        env = dict(os.environ); env.update(SAN_ENV); env.update(VARIANTS[variant].get("env", {})); env["VMON_LOG"] = log
        open(log, "w").close()
        cmd = VARIANTS[variant].get("wrap", []) + run.get("wrap", []) + [prog, "--seed", str(SEED), "--tier", TIER, "--from", str(cur), "--to", str(to), "--stride", str(stride)]
        with open(errf, "wb") as ef:
            p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=(ef if run.get("keep_stdout") else subprocess.DEVNULL), stderr=ef, start_new_session=True)
        hung = False; last = (0, time.time())
        while True:
            try:
                p.wait(timeout=0.3); break
            except subprocess.TimeoutExpired: pass
            sz = os.path.getsize(log)
            if sz != last[0]: last = (sz, time.time())
            elif time.time() - last[1] > limit:
                hung = True
                try: os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError: pass
                p.wait(); break
        try: os.killpg(p.pid, signal.SIGKILL)       # stray children of a case
        except ProcessLookupError: pass
        begun = None; stage = ""; done = False; ended = None
        with agg.lock:
            for line in open(log, errors="replace"):
                line = line.rstrip("\n"); t, _, rest = line.partition(" ")
                if t == "B": begun = int(rest); stage = ""
                elif t == "A": stage = rest
                elif t == "E": ended = int(rest)
                elif t == "D": done = True
                elif t == "H": agg.hashes.add(rest)
                elif t == "S":
                    if len(agg.samples) < 12: agg.samples.append(rest)
                elif t == "C":
                    k, _, n = rest.rpartition(" "); agg.counters[k] = agg.counters.get(k, 0) + int(n)
                    if k == "cases": agg.variant_cases[variant] = agg.variant_cases.get(variant, 0) + int(n)
                elif t == "V":
                    k, _, d = rest.partition("\t")
                    agg.viols.append({"key": k, "detail": d[:1500], "src": run["src"], "variant": variant, "case": begun})
        err = open(errf, errors="replace").read()
        where = {"src": run["src"], "variant": variant, "case": begun}
        shutil.rmtree(wd, ignore_errors=True)
        if done and p.returncode == 0:
            break
        if begun is None:
            agg.errors.append("%s (%s) died before its first case: rc=%s %s" % (run["src"], variant, p.returncode, err[-1500:])); break
        if p.returncode in (70, 71, 72):
            agg.errors.append("%s (%s) case %s: harness failure rc=%s %s" % (run["src"], variant, begun, p.returncode, err[-1500:])); break
        if done:    # every case ran but the process did not end cleanly
            agg.viol("at-exit/" + summarize_crash(p.returncode, err), err[-3000:], where); break
        if ended == begun and not hung:
            # between cases: still attribute to the last case
            pass
        kind = "hang" if hung else summarize_crash(p.returncode, err)
        tail = err[:1800] + (" ... " + err[-600:] if len(err) > 2400 else err[1800:])
        agg.viol(kind + ("@" + stage.split(" ")[0] if stage else ""), "stage: " + stage + " | " + tail, where)
        crashes += 1
        if crashes >= run.get("max_crashes", 4): break
        cur = begun + stride
    with agg.lock: agg.done_shards += 1

def main():
    pid = sys.argv[1]
    if pid not in CHECKS: die("no check " + pid)
    cfg = CHECKS[pid]
    known = known_findings(pid)
    only = None
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        only = json.load(open(sys.argv[3]))
        global SEED, TIER
        SEED = only["seed"]; TIER = only["tier"]
    scratch = tempfile.mkdtemp(prefix="ultradmrg-check-%s-" % pid)
    try:
        rc = run_check(pid, cfg, known, only, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

def run_check(pid, cfg, known, only, scratch):
    # build every (source, variant) pair in parallel
    pairs = []
    for run in cfg["runs"]:
        for var in run["variants"]:
            if only and (only["src"] != run["src"] or only["variant"] != var): continue
            if (run["src"], var) not in pairs: pairs.append((run["src"], var))
    progs = {}; fails = []
    sem = threading.Semaphore(NPROC)
    def b(src, var):
        with sem:
            out, rc, txt, cmd = build(src, var, scratch)
            if rc: fails.append("%s [%s]\n%s\n%s" % (src, var, cmd, txt[-4000:]))
            progs[(src, var)] = out
    ths = [threading.Thread(target=b, args=pr) for pr in pairs]
    [t.start() for t in ths]; [t.join() for t in ths]
    if fails: die("harness does not build against the working tree:\n" + "\n".join(fails))
    t_build = time.time() - T0
    agg = Agg(); planned = 0; jobs = []
    for run in cfg["runs"]:
        for vi, var in enumerate(run["variants"]):     # each build runs cases of its own
            if (run["src"], var) not in progs: continue
            n = run["cases"][TIER]
            if isinstance(n, dict): n = n[var]
            if only:
                jobs.append((progs[(run["src"], var)], run, var, only["case"], only["case"] + 1, 1)); continue
            planned += n
            k = min(run.get("shards", NPROC), NPROC, n)
            for s in range(k): jobs.append((progs[(run["src"], var)], run, var, 1000000 * vi + s, 1000000 * vi + n, k))
    sem2 = threading.Semaphore(NPROC)
    def j(i, job):
        with sem2:
            try: run_shard(*job, agg, scratch, i)
            except Exception as e: agg.errors.append("driver: %r" % e)
    ths = [threading.Thread(target=j, args=(i, job)) for i, job in enumerate(jobs)]
    [t.start() for t in ths]; [t.join() for t in ths]
    new = [v for v in agg.viols if v["key"] not in known]
    seen_known = sorted({v["key"] for v in agg.viols if v["key"] in known})
    if only:
        for v in agg.viols: print("REPLAYED %s: %s" % (v["key"], v["detail"]))
    # the monitors must really have observed something
    missing = [k for k, n in cfg.get("expect", {}).items() if agg.counters.get(k, 0) < (n if TIER == "quick" or isinstance(n, int) else n)]
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": cfg.get("level", "exploration"),
          "coverage": {"evaluations": agg.counters.get("cases", 0), "distinct_nontrivial": len(agg.hashes),
                       "rule": cfg["rule"], "samples": agg.samples[:8] or ["(none)"],
                       "planned_cases": planned, "cases_per_build": agg.variant_cases,
                       "observed": {k: v for k, v in sorted(agg.counters.items()) if k != "cases"},
                       "known_findings_seen": seen_known},
          "assumptions": cfg.get("assumptions", []),
          "wall_s": round(time.time() - T0, 2), "violations": len(new)}
    if not only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases (%d distinct non-trivial), %d checks, build %.1fs, total %.1fs" % (
        pid, TIER, SEED, agg.counters.get("cases", 0), len(agg.hashes), agg.counters.get("checks", 0), t_build, time.time() - T0))
    print("observed: " + ", ".join("%s=%d" % kv for kv in sorted(agg.counters.items())))
    if new:
        v = new[0]
        rp = os.path.join(HERE, "evidence", pid + ".replay.json")
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        if not only:
            with open(rp, "w") as f:
                json.dump({"property": pid, "seed": SEED, "tier": TIER, "src": v["src"], "variant": v["variant"], "case": v["case"],
                           "key": v["key"], "detail": v["detail"], "run": "python3 check.py %s --replay %s" % (pid, rp),
                           "all_keys": sorted({x["key"] for x in new})}, f, indent=1)
        for k in sorted({x["key"] for x in new}):
            ex = next(x for x in new if x["key"] == k)
            print("  [%s] case %s of %s (%s): %s" % (k, ex["case"], ex["src"], ex["variant"], ex["detail"][:700]))
        print("VIOLATION property=%s replay=%s" % (pid, rp), flush=True)
        return 1
    if agg.errors: die("; ".join(agg.errors)[:4000])
    if only: return 0
    if missing: die("monitors observed too little: " + ", ".join("%s=%d" % (k, agg.counters.get(k, 0)) for k in missing))
    if agg.counters.get("cases", 0) < planned and not seen_known: die("only %d of %d cases ran" % (agg.counters.get("cases", 0), planned))
    for k in known: print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
    return 0

if __name__ == "__main__": main()

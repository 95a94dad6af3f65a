#!/usr/bin/env python3
"""Build and run the runtime-monitoring check of one property.  check.py ID [--tier quick|thorough] | --setup
   check.py ID --replay SUB CASE [SEED]  re-runs one case with tracing."""
import sys, os, subprocess, hashlib, json, time, glob, re, shutil, mmap, struct, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VH_REPO", "/repo")
BUILD = os.environ.get("VH_BUILD", os.path.join(ROOT, ".build"))
EVD = os.path.join(ROOT, "evidence")
INC = os.path.join(REPO, "code/include")
NSH = 8
CXX = "clang++"
BASE = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-I", INC, "-I", os.path.join(ROOT, "harness"), "-D_GLIBCXX_ASSERTIONS",
        "-Wno-everything", "-pthread"]
VARIANTS = {
    "asan": ["-O1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=nonnull-attribute,pointer-overflow,vptr",
             "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "plain": ["-O1"],
}
ENVX = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=86:hard_rss_limit_mb=3000:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_init_order=0:handle_abort=1:quarantine_size_mb=32:max_malloc_fill_size=65536:detect_odr_violation=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=86:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1",
}
SYM = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18")
if not SYM and os.path.exists("/usr/lib/llvm-18/bin/llvm-symbolizer"): SYM = "/usr/lib/llvm-18/bin/llvm-symbolizer"

class HarnessError(Exception): pass

def log(*a): print(*a, flush=True)

def tree_hash():
    h = hashlib.sha256()
    for base in (INC, os.path.join(ROOT, "harness")):
        for d, _, fs in sorted(os.walk(base)):
            for f in sorted(fs):
                if f.endswith((".h", ".hpp", ".inc")):
                    p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def compile_one(src, flags, th):
    h = hashlib.sha256(); h.update(th.encode()); h.update(" ".join(flags).encode()); h.update(src.encode()); h.update(open(src, "rb").read())
    o = os.path.join(BUILD, os.path.basename(src) + "." + h.hexdigest()[:24] + ".o")
    if not os.path.exists(o):
        t = o + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX] + flags + ["-c", src, "-o", t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: raise HarnessError("compile of %s failed:\n%s" % (src, r.stdout[:1500]))
        os.rename(t, o)
    return o

def sources(pid):
    hs = [os.path.join(ROOT, "harness", pid + ".cc")] + sorted(glob.glob(os.path.join(ROOT, "harness", pid + "_*.cc")))
    return hs + sorted(glob.glob(os.path.join(REPO, "code/src/*.cc")))

def build(pid, variant):
    os.makedirs(BUILD, exist_ok=True)
    flags = BASE + VARIANTS[variant]; th = tree_hash()
    with ThreadPoolExecutor(NSH) as ex:
        objs = list(ex.map(lambda s: compile_one(s, flags, th), sources(pid)))
    exe = os.path.join(BUILD, "%s.%s.%d" % (pid, variant, os.getpid()))
    san = [f for f in VARIANTS[variant] if f.startswith("-fsanitize")]
    r = subprocess.run([CXX, "-o", exe] + san + objs + ["-pthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise HarnessError("link failed:\n" + r.stdout[:4000])
    return exe

def env():
    e = dict(os.environ); e.update(ENVX)
    if SYM: e["ASAN_SYMBOLIZER_PATH"] = SYM; e["UBSAN_SYMBOLIZER_PATH"] = SYM; e["TSAN_OPTIONS"] += ":external_symbolizer_path=" + SYM
    e["LC_ALL"] = "C"; e["TZ"] = "UTC"
    return e

def san_key(err):
    m = re.search(r"runtime error: (.*)", err)
    if m:
        k = re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1))[:80]; return "ubsan:" + re.sub(r"[^A-Za-z_]+", "-", k).strip("-")
    m = re.search(r"AddressSanitizer: ([A-Za-z0-9_-]+)", err)
    if m: return "asan:" + m.group(1)
    m = re.search(r"==\d+== (Conditional jump or move depends on uninitialised|Use of uninitialised value|Syscall param \S+ (?:points to|contains) uninitialised|Invalid (?:read|write|free))", err)
    if m: return "memcheck:" + re.sub(r"Syscall param \S+ ", "syscall-", m.group(1)).split(" depends")[0].strip().replace(" ", "-").lower()
    m = re.search(r"ThreadSanitizer: ([a-z -]+)", err)
    if m: return "tsan:" + m.group(1).strip().replace(" ", "-")
    if "Assertion" in err or "assert" in err: return "assert"
    return None

def parse_fail(out):
    m = None
    for m in re.finditer(r"^@FAIL\t(\S+)\t(\d+)\t([^\t]+)\t(.*)$", out, re.M): pass
    return (m.group(1), int(m.group(2)), m.group(3).replace(" ", ""), m.group(4)) if m else None

def classify(rc, out, err, subs, prog):
    """-> (sub, case, oracle, msg)"""
    f = parse_fail(out)
    if f: return f
    s, i = prog; sub = subs[s] if s < len(subs) else "?"
    k = san_key(err)
    if rc in (86, 66) and k is None: k = "sanitizer"
    if rc < 0 and k is None: k = "signal-%d" % -rc
    if k is None: return (sub, i, "exit-%d" % rc, (err or out)[-300:].replace("\n", " "))
    m = re.search(r"(runtime error: .*|ERROR: AddressSanitizer: .*|==\d+== (?:Conditional jump|Use of uninit|Syscall param|Invalid ).*(?:\n==.*){0,4}|WARNING: ThreadSanitizer: .*|.*Assertion.*)", err)
    return (sub, i, k, m.group(1).replace("\n", " ") if m else err[-300:].replace("\n", " "))

# Second instrument: memcheck on a sample of the same cases (finds uses of uninitialised memory, which ASan does not).
NO_MEMCHECK = {"A02"}      # its bookkeeping needs the ASan allocator hooks
VALGRIND = shutil.which("valgrind")
VGWRAP = [VALGRIND, "-q", "--error-exitcode=86", "--exit-on-first-error=yes", "--leak-check=no", "--num-callers=8"]
UNPRIV = {"P01", "P02"}   # workloads run as an unprivileged user inside a scratch directory of their own
NOBODY = 65534
def scratch_args(pid, tmp, k):
    """fresh scratch directory for one process -> extra arguments"""
    if pid not in UNPRIV: return []
    d = "%s/scratch%s" % (SCR or tmp, k); drop_scratch(d); os.mkdir(d, 0o700)
    if os.geteuid() == 0: os.chown(d, NOBODY, NOBODY)
    return ["--user", str(NOBODY), "--scratch", d]
SCR = None
def open_scratch(pid):
    """a memory file system when there is one: the workloads are nothing but system calls"""
    global SCR
    if pid in UNPRIV and SCR is None:
        try: SCR = tempfile.mkdtemp(prefix="vh_%s_" % pid, dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None); os.chmod(SCR, 0o755)
        except OSError: SCR = None
def close_scratch():
    if SCR and os.path.basename(SCR).startswith("vh_"):
        for d in os.listdir(SCR): drop_scratch(os.path.join(SCR, d))
        shutil.rmtree(SCR, ignore_errors=True)
def drop_scratch(d):
    if os.path.isdir(d) and os.path.basename(d).startswith("scratch"):
        if os.geteuid() != 0: subprocess.run(["chmod", "-R", "u+rwx", d], stderr=subprocess.DEVNULL)
        shutil.rmtree(d, ignore_errors=True)

class Shard:
    def __init__(self, exe, k, args, tmp, subs, maxfail, known, pid, wrap=None, shard=None, nshards=NSH):
        self.shard, self.nshards = (k if shard is None else shard), nshards
        self.pid = pid
        self.exe, self.k, self.args, self.tmp, self.subs = exe, k, args, tmp, subs
        self.fails = []; self.err = None; self.outs = []; self.bms = []; self.maxfail = maxfail; self.known = known; self.wrap = wrap or []
    def run(self):
        ss, sc = 0, 0; n = 0; bad = 0; persub = {}
        while True:
            pf = "%s/p%d" % (self.tmp, self.k); of = "%s/o%d.%d" % (self.tmp, self.k, n); bf = "%s/b%d.%d" % (self.tmp, self.k, n); n += 1
            open(pf, "wb").write(b"\0" * 4096)
            cmd = self.wrap + [self.exe, "--shard", str(self.shard), "--nshards", str(self.nshards), "--progress", pf, "--out", of, "--bitmap", bf,
                   "--start-sub", str(ss), "--start-case", str(sc)] + self.args + scratch_args(self.pid, self.tmp, self.k)
            with open("%s/out%d" % (self.tmp, self.k), "w+b") as fo, open("%s/err%d" % (self.tmp, self.k), "w+b") as fe:
                try: rc = subprocess.run(cmd, stdout=fo, stderr=fe, env=env(), cwd=self.tmp, timeout=TIMEOUT).returncode
                except subprocess.TimeoutExpired: self.err = "shard %d exceeded the wall clock limit (inconclusive)" % self.k; return
                fo.seek(0); fe.seek(0); out = fo.read().decode("latin-1"); err = fe.read().decode("latin-1")
            s, i, done = struct.unpack("QQQ", open(pf, "rb").read(24))
            if rc == 0 and done: self.outs.append(of); self.bms.append(bf); return
            if rc in (3,) and not parse_fail(out): self.err = "harness error: " + (err + out)[-800:]; return
            f = classify(rc, out, err, self.subs, (s, i))
            self.fails.append(f + (err,))
            key = f[0] + ":" + f[2]
            if key not in self.known: bad += 1
            if bad >= self.maxfail or n > 60: return
            persub[key] = persub.get(key, 0) + 1
            ss, sc = s, i + 1
            if persub[key] >= 2: ss, sc = s + 1, 0   # enough of this one: next sub-check
            if ss >= len(self.subs): return

def known_keys(pid):
    ks = {}
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid: ks[m.group(2)] = m.group(3).strip()
    return ks

TIMEOUT = 780
def main():
    global TIMEOUT
    a = sys.argv[1:]
    if "--setup" in a:
        r = subprocess.run([CXX, "--version"], stdout=subprocess.PIPE, text=True); log(r.stdout.splitlines()[0]); os.makedirs(EVD, exist_ok=True); return 0
    pid = a[0]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    scale = None
    if "--scale" in a: scale = a[a.index("--scale") + 1]
    if tier == "thorough": TIMEOUT = 6 * 3600
    t0 = time.time()
    variant = "tsan" if pid.startswith("X") else "asan"
    if "--variant" in a: variant = a[a.index("--variant") + 1]
    exe = build(pid, variant); vgexe = None
    if variant == "asan" and VALGRIND and pid not in NO_MEMCHECK and "--replay" not in a: vgexe = build(pid, "plain")
    tb = time.time() - t0
    try:
        open_scratch(pid)
        if "--replay" in a:
            i = a.index("--replay"); sd = a[i + 3] if len(a) > i + 3 else str(seed)
            tmp = tempfile.mkdtemp(prefix="vh_%s_" % pid); os.chmod(tmp, 0o755)
            try: return subprocess.run([exe, "--sub", a[i + 1], "--case", a[i + 2], "--seed", sd, "--trace"] + scratch_args(pid, tmp, "_replay"), env=env(), cwd=tmp).returncode
            finally: shutil.rmtree(tmp, ignore_errors=True)
        return run(pid, tier, seed, exe, variant, t0, tb, scale, vgexe)
    finally:
        close_scratch()
        for e in (exe, vgexe):
            try: e and os.unlink(e)
            except OSError: pass

def run(pid, tier, seed, exe, variant, t0, tb, scale, vgexe=None):
    subs = [l.split()[0] for l in subprocess.run([exe, "--list"], stdout=subprocess.PIPE, text=True, env=env()).stdout.splitlines()]
    subs.sort()
    if not subs: raise HarnessError("no sub-checks")
    known = known_keys(pid)
    tmp = tempfile.mkdtemp(prefix="vh_%s_" % pid); os.chmod(tmp, 0o755)
    args = ["--seed", str(seed)] + (["--thorough"] if tier == "thorough" else []) + (["--scale", scale] if scale else [])
    try:
        shards = [Shard(exe, k, args, tmp, subs, 3, known, pid) for k in range(NSH)]
        ths = [threading.Thread(target=s.run) for s in shards]
        [t.start() for t in ths]; [t.join() for t in ths]
        mem = []; tm = time.time()
        if vgexe and not any(s.fails for s in shards) and not any(s.err for s in shards):
            div = 128 if tier == "quick" else 64
            mem = [Shard(vgexe, 100 + k, args + ["--hang", "300"], tmp, subs, 2, known, pid, VGWRAP, (k * div // 8 + seed) % div, div) for k in range(NSH)]
            ths = [threading.Thread(target=s.run) for s in mem]
            [t.start() for t in ths]; [t.join() for t in ths]
        tm = time.time() - tm
        errs = [s.err for s in shards + mem if s.err]
        fails = {}
        for s in shards + mem:
            for f in s.fails:
                key = f[0] + ":" + f[2]
                fails.setdefault(key, (f, s.k))
        # confirm each distinct failure by re-running the case alone with trace
        viol = []; kf = []; unconf = []
        for key, (f, k) in sorted(fails.items()):
            sub, case, orc, msg, err = f
            cmd = (VGWRAP + [vgexe] if k >= 100 else [exe]) + ["--sub", sub, "--case", str(case), "--seed", str(seed), "--trace", "--hang", "300" if k >= 100 else "60"] + (["--thorough"] if tier == "thorough" else [])
            def alone():
                try:
                    r = subprocess.run(cmd + scratch_args(pid, tmp, "_alone"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(), cwd=tmp, timeout=600)
                    return r.returncode, r.stdout.decode("latin-1"), r.stderr.decode("latin-1")
                except subprocess.TimeoutExpired as x: return -99, (x.stdout or b"").decode("latin-1"), "timeout"
            rc, out, e2 = alone()
            ok = rc not in (0, 3)
            if not ok and variant == "tsan" and orc.startswith("tsan"): ok = True   # race reports need no repetition
            if not ok:  # state carried over from earlier cases of the shard?
                tmp2 = tempfile.mkdtemp(prefix="vh2_", dir=tmp); os.chmod(tmp2, 0o755)
                o = [s for s in shards + mem if s.k == k][0]; s2 = Shard(o.exe, k, o.args, tmp2, subs, 1, known, pid, o.wrap, o.shard, o.nshards); s2.run()
                if any(x[0] == sub and x[2] == orc for x in s2.fails): ok = True
            if key in known: kf.append((key, known[key])); continue
            if not ok: unconf.append((key, case, msg)); continue
            viol.append((key, sub, case, orc, msg, out[-20000:], (e2 if rc else err)[-8000:]))
        ev = {}; cases = 0; obs = 0; persub = {}; samples = {}; bm = 0
        for s in shards:
            for of in s.outs:
                for l in open(of, errors="replace"):
                    p = l.rstrip("\n").split("\t")
                    if p[0] == "@CASES": cases += int(p[1])
                    elif p[0] == "@OBS": obs += int(p[1])
                    elif p[0] == "@EV": ev[p[1]] = ev.get(p[1], 0) + int(p[2])
                    elif p[0] == "@SUB": x = persub.setdefault(p[1], [0, 0]); x[0] += int(p[2]); x[1] += int(p[3])
                    elif p[0] == "@SAMPLE": samples.setdefault(p[1], p[2])
            for b in s.bms: bm |= int.from_bytes(open(b, "rb").read(), "little")
        distinct = bin(bm).count("1"); memcases = 0
        for s in mem:
            for of in s.outs:
                for l in open(of, errors="replace"):
                    if l.startswith("@CASES"): memcases += int(l.split("\t")[1])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for key, what in kf: log("KNOWN-FINDING: property=%s %s (%s)" % (pid, what, key))
    rep = "evidence/%s.replay.txt" % pid
    os.makedirs(EVD, exist_ok=True)
    if viol:
        with open(os.path.join(ROOT, rep), "w") as f:
            for key, sub, case, orc, msg, out, err in viol:
                f.write("== %s case %d\nreplay: VERIF_SEED=%d python3 bin/check.py %s --tier %s --replay %s %d %d\n%s\n-- trace\n%s\n-- stderr\n%s\n\n" % (key, case, seed, pid, tier, sub, case, seed, msg, out, err))
    meta = json.load(open(os.path.join(ROOT, "harness", "rules.json"))) if os.path.exists(os.path.join(ROOT, "harness", "rules.json")) else {}
    cov = dict(evaluations=cases, distinct_nontrivial=min(distinct, cases),
               rule="a case is one generated workload (see per_sub); non-trivial = the monitors made at least one observation on it; distinct = distinct hash of all observed values (2^24-bit sketch, so an undercount). " + meta.get(pid, ""),
               samples=[{"sub": k, "trace": v} for k, v in sorted(samples.items())] or [{"none": True}],
               monitor_observations=obs, events=dict(sorted(ev.items())),
               per_sub={k: dict(cases=v[0], observations=v[1]) for k, v in sorted(persub.items())},
               memcheck_cases=memcases, memcheck_s=round(tm, 1), build_s=round(tb, 1), variant=variant, shards=NSH, known_findings_seen=[k for k, _ in kf], unconfirmed=len(unconf))
    json.dump(dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, violations=len(viol), wall_s=round(time.time() - t0, 1),
                   assumptions=["reference models and oracles in harness/%s.cc" % pid, "clang 18 ASan/UBSan/TSan run-times, libstdc++ and glibc as reference"]),
              open(os.path.join(EVD, pid + ".json"), "w"), indent=1)
    log("%s: %d cases, %d distinct, %d observations, build %.1fs, memcheck %d cases %.1fs, total %.1fs" % (pid, cases, distinct, obs, tb, memcases, tm, time.time() - t0))
    for key, sub, case, orc, msg, out, err in viol: log("  %s case %d: %s" % (key, case, msg[:700]))
    if viol:
        log("VIOLATION property=%s replay=%s" % (pid, rep)); return 1
    for u in unconf: log("unconfirmed failure (inconclusive):", u)
    for e in errs: log("ERROR", e)
    if errs or unconf: return 3
    if not cases or not obs or set(persub) != set(subs): log("ERROR: coverage missing"); return 3
    if sum(v[1] for v in persub.values()) == 0: return 3
    return 0

if __name__ == "__main__":
    try: sys.exit(main())
    except HarnessError as x: log("HARNESS ERROR:", x); sys.exit(4)

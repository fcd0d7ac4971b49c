#!/usr/bin/env python3
"""Driver of the runtime monitors.

usage: check.py <property id> [--tier quick|thorough] [--seed N]
       check.py --replay replays/<file>.json
       check.py --selftest

Builds the monitored programs from the working tree of the repository (VERIF_REPO, default /repo) in a
scratch directory, runs them, judges what the monitors reported, writes evidence/<id>.json.
Exit 0: held on everything observed; 1: violation (VIOLATION line); 2: no verdict.
"""
import concurrent.futures as cf
import fnmatch, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = os.cpu_count() or 4
STD = "-std=gnu++14 -w"

# ---------------------------------------------------------------- configurations under test
CONFIGS = {
    #  name        compiler   flags
    "g-sse2":    ("g++",     "-O1"),
    "g-sse41":   ("g++",     "-O1 -msse4.1"),
    "g-avx":     ("g++",     "-O2 -mavx"),
    "g-gen":     ("g++",     "-O1 -U__SSE__ -U__SSE2__"),
    "g-fma":     ("g++",     "-O2 -mavx2 -mfma -std=gnu++17"),
    "g-sse2-O0": ("g++",     "-O0"),
    "g-avx-O0":  ("g++",     "-O0 -mavx"),
    "g-sse3-O3": ("g++",     "-O3 -DNDEBUG -msse3"),
    "g-avx-O3":  ("g++",     "-O3 -DNDEBUG -mavx -std=gnu++20"),
    "g-avx512":  ("g++",     "-O2 -mavx512f"),
    "g-sse1":    ("g++",     "-Os -U__SSE2__ -DMON_NO_SOFTCLIP"),
    "c-sse3":    ("clang++", "-O2 -DNDEBUG -msse3"),
    "c-sse41":   ("clang++", "-Os -msse4.1 -std=gnu++11"),
    "c-avx":     ("clang++", "-O2 -DNDEBUG -mavx -std=gnu++20"),
    "c-fma":     ("clang++", "-O2 -mavx2 -mfma -std=gnu++2b"),
    "g-sse2-98": ("g++",     "-O1"),
    "c-avx-98":  ("clang++", "-O2 -mavx"),
    "c-gen":     ("clang++", "-O1 -U__SSE__ -U__SSE2__"),
    "g-neon":    ("g++",     "-O1 -U__SSE__ -U__SSE2__ -D__ARM_NEON__ -DMON_NEON -I" + os.path.join(HARNESS, "neon")),
}
# builds the repository itself is tested in: these have to compile; others are reported when they do not
MUST_BUILD = {"g-sse2", "g-sse41", "g-avx"}
QUICK = ["g-sse2", "g-sse41", "g-avx", "g-gen", "g-fma", "c-sse3", "c-avx"]
Q98 = QUICK + ["g-sse2-98"]
QN = QUICK + ["g-neon"]        # vec_neon.hpp executed on a software model of its intrinsics
FULL = QUICK + ["g-sse2-O0", "g-avx-O0", "g-sse3-O3", "g-avx-O3", "g-avx512", "g-sse1", "c-sse41", "c-fma", "c-gen", "g-neon"]
F98 = FULL + ["g-sse2-98", "c-avx-98"]
ASAN_G = "-fsanitize=address,undefined -fno-sanitize-recover=address -fno-omit-frame-pointer -g1"
SAN = {   # sanitizer builds: name -> (compiler, flags, kind)
    "g-asan-sse2":  ("g++",     "-O1 " + ASAN_G, "asan"),
    "g-asan-avx":   ("g++",     "-O1 -mavx " + ASAN_G, "asan"),
    "g-asan-sse41": ("g++",     "-O1 -msse4.1 " + ASAN_G, "asan"),
    "c-asan-avx":   ("clang++", "-O1 -mavx " + ASAN_G, "asan"),
    "c-asan-fma":   ("clang++", "-O1 -mavx2 -mfma " + ASAN_G, "asan"),
    "c-asan-gen":   ("clang++", "-O1 -U__SSE__ -U__SSE2__ " + ASAN_G, "asan"),
    "g-asan-gen":   ("g++",     "-O1 -U__SSE__ -U__SSE2__ " + ASAN_G, "asan"),
    "c-msan-sse2":  ("clang++", "-O1 -g1 -fsanitize=memory -fno-sanitize-recover=all", "msan"),
    "c-msan-avx-O0": ("clang++", "-O0 -g1 -mavx -fsanitize=memory -fno-sanitize-recover=all", "msan"),
    "c-msan-avx":   ("clang++", "-O1 -g1 -mavx -fsanitize=memory -fno-sanitize-recover=all", "msan"),
    "c-msan-gen":   ("clang++", "-O1 -g1 -U__SSE__ -U__SSE2__ -fsanitize=memory -fno-sanitize-recover=all", "msan"),
    "g-tsan-sse2":  ("g++",     "-O1 -g1 -fsanitize=thread", "tsan"),
    "c-tsan-avx":   ("clang++", "-O1 -g1 -mavx -fsanitize=thread", "tsan"),
}
CONFIGS.update({k: v[:2] for k, v in SAN.items()})

NR = "-DREG_NO_RAMP"
FEW = "-DREG_FEW"
UN = lambda *p: [("unary", x, "") for x in p]
BI = lambda x, *p: [("binary", y, x) for y in p]
TE = lambda x, *p: [("ternary", y, x) for y in p]
MI = lambda *p: [("misc", x, "") for x in p]
ALL = UN(1, 2, 4) + BI("", 1, 2, 4) + TE("", 1, 2) + MI(1, 2)
ALLFEW = UN(1, 2, 4) + BI(FEW, 1, 2, 4) + TE(FEW, 1, 2) + MI(1, 2)
VEC = [("vec", 0, "")]

# ---------------------------------------------------------------- what each property runs
# main, translation units, quick configurations, thorough configurations, quick shards, thorough shards
P = {}
def prop(pid, main, tus, quick=QUICK, full=FULL, shards=1, tshards=1, **kw):
    P[pid] = dict(main=main, tus=tus, quick=quick, full=full, shards=shards, tshards=tshards, **kw)

VALUE = ("one case = one call of a library function (function, argument kinds, call form, sample type, build) on a block "
         "of seed-derived samples; non-trivial: the block holds at least two different samples or a scalar argument, and "
         "at least one sample is inside the claimed domain; distinct by hash of call site, length and leading samples")
prop("C01", "p_point", UN(1) + BI(NR, 1, 2) + TE(NR, 1, 2), quick=Q98 + ["g-neon"], full=F98, shards=2, rule=VALUE)
prop("C02", "p_args", BI("", 1, 2, 4) + TE("", 1, 2),
     rule="one case = one call with at least one scalar or ramp argument; distinct by hash of call site, length, bases and slopes")
prop("C03", "p_extent", ALL, quick=QUICK + ["g-sse2-O0", "g-avx-O0"],
     rule="one case = one call on fenced buffers; distinct by call site, length, placement (start/end at an inaccessible page) and gaps")
prop("C04", "p_form", UN(1, 2, 4) + BI(NR, 1, 2, 4) + TE(NR, 1, 2), quick=Q98, full=F98, shards=2,
     rule="one case = one call whose samples are all compared with the same argument tuple evaluated alone; distinct by call site, length and leading samples")
prop("C05", "p_form", ALL, shards=2,
     rule="one case = one aliased call paired with its separate-buffer twin; distinct by call site, length, alias set, output and leading samples")
prop("C06", "p_point", UN(2) + BI(NR, 4), quick=Q98, full=F98, shards=2, rule=VALUE)
prop("C07", "p_edges", UN(1, 2, 4), quick=Q98, full=F98, shards=2,
     rule="one case = one pair of calls f(x), f(-x) on a block; distinct by call site, length and leading samples")
prop("C08", "p_point", UN(1), quick=Q98 + ["g-neon"], full=F98, shards=2, rule=VALUE)
prop("C09", "p_point", UN(4), quick=Q98, full=F98, shards=2, rule=VALUE)
prop("C10", "p_reduce", MI(2), quick=QN, shards=3,
     rule="one case = one reduction of a block; non-trivial: length 1 or at least two different samples; distinct by hash of call site and whole block")
prop("C11", "p_reduce", MI(2), quick=QN, shards=3,
     rule="one case = one metering call or one metering history of several blocks; non-trivial: length 1 or at least two different samples; distinct by hash of call site, block and initial state")
prop("C12", "p_memory", MI(1), quick=QN, shards=3,
     rule="one case = one fill/copy/accumulate/ramp call; distinct by call site, length, pointer offsets, scalar and leading samples")
prop("C13", "p_memory", MI(2), quick=QN, shards=3,
     rule="one case = one panning call; distinct by call site, length, factors and leading samples")
prop("C14", "p_vec", VEC, quick=QUICK + ["g-sse2-O0", "g-sse1", "c-gen", "g-neon"], shards=2,
     rule="one case = one vector operation on one set of lanes (operation, sample type, build); distinct by hash of operation and operand lanes")
prop("C15", "p_point", UN(1, 2), quick=Q98, full=F98, shards=2, rule=VALUE)
prop("C16", "p_dump", ALL, kind="dump", shards=1, tshards=3,
     rule="one case = one logged call event replayed by another build; distinct by call site, length, iteration and leading samples")
prop("C17", "p_pure", ALLFEW, quick=["g-sse2", "g-avx", "g-gen", "c-avx", "g-tsan-sse2"],
     full=["g-sse2", "g-sse41", "g-avx", "g-gen", "g-fma", "c-sse3", "c-avx", "g-tsan-sse2", "c-tsan-avx"], serial=True,
     rule="one case = one job (call with fixed arguments) executed once as reference and then replayed after other calls, in two floating-point modes, and by 8 threads at once; distinct by call site and job number")
prop("C18", "p_san", ALLFEW, quick=["g-asan-sse2", "c-asan-avx", "c-msan-avx-O0", "g-asan-gen"],
     full=list(k for k in SAN if SAN[k][2] != "tsan"), extra_main="p_vec", thorough_tus=ALL,
     rule="one case = one instrumented call on exactly sized heap blocks; distinct by call site, length and leading samples")
prop("C19", "p_rt", ALL, quick=["g-sse2", "g-avx", "g-gen", "c-avx"], full=["g-sse2", "g-sse41", "g-avx", "g-gen", "g-fma", "c-sse3", "c-avx", "c-fma", "g-sse2-O0"],
     libs="-ldl -Wl,-z,now", rule="one case = one call executed with allocation/lock interposition armed, and again under a system-call trap; distinct by call site, length and leading samples")

ASSUME = {
    "common": ["x86-64 host of the sandbox; AltiVec builds cannot be executed here, NEON ones only on a software model of the intrinsics",
               "the reference semantics in harness/oracle.hpp (long double / double libm) are right",
               "default rounding mode; block lengths and pointer alignment as the call form requires"],
}

# ---------------------------------------------------------------- helpers
class NoVerdict(Exception):
    pass

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def make_dict(path):
    """Input dictionary: the numeric literals of the library sources (values a change could single out)."""
    vals = set()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in (".git", "testsuite", "tests", "benchmarks", "_build", "build", "cmake", "external")]
        for f in files:
            if not f.endswith((".hpp", ".h", ".ipp", ".inl", ".cpp")):
                continue
            try:
                src = open(os.path.join(root, f), errors="replace").read()
            except OSError:
                continue
            src = re.sub(r"//[^\n]*|/\*.*?\*/", " ", src, flags=re.S)
            for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F]+)", src):
                u = int(m.group(1), 16)
                if u < 2 ** 32:
                    v = struct.unpack("<f", struct.pack("<I", u))[0]
                    if v == v and abs(v) != float("inf"): vals.add(v)
                    if u < 2 ** 24: vals.add(float(u))
                elif u < 2 ** 64:
                    v = struct.unpack("<d", struct.pack("<Q", u))[0]
                    if v == v and abs(v) != float("inf"): vals.add(v)
            for m in re.finditer(r"(?<![\w.])((?:\d+\.\d*|\.\d+|\d+)(?:[eE][-+]?\d+)?)(?![\w.]*[xX])", src):
                try:
                    v = float(m.group(1))
                except ValueError:
                    continue
                if abs(v) < 1e308: vals.add(v)
    with open(path, "w") as o:
        for v in sorted(vals):
            o.write("%.17g\n" % v)
    return len(vals)

class Builder:
    def __init__(self, work):
        self.work, self.jobs, self.links, self.fail = work, [], [], {}
        self.objs = {}

    def obj(self, cfg, src, cxx, flags, tag, weight=1):
        d = os.path.join(self.work, cfg); os.makedirs(d, exist_ok=True)
        o = os.path.join(d, tag + ".o")
        key = (cfg, tag)
        if key not in self.objs:
            self.objs[key] = o
            self.jobs.append((weight, cfg, "%s %s %s -I%s -I%s -c %s/%s -o %s" % (cxx, STD, flags, REPO, HARNESS, HARNESS, src, o)))
        return o

    def program(self, cfg, main, tus, libs=""):
        cxx, flags = CONFIGS[cfg]
        kind = SAN[cfg][2] if cfg in SAN else ""
        objs = []
        if kind in ("asan", "tsan"):
            for m in (main, "mon"):
                objs.append(self.obj(cfg, m + ".cpp", cxx, re.sub(r"-m\w\S*|-U\S+", "", flags) + " -ffp-contract=off", m, 3))
        elif kind == "msan":       # only the library side is instrumented
            for m in (main, "mon"):
                objs.append(self.obj(cfg, m + ".cpp", "clang++", "-O2 -ffp-contract=off", m, 3))
        else:
            for m in (main, "mon"):
                objs.append(self.obj("host", m + ".cpp", "g++", "-O2 -ffp-contract=off", m, 4))
        if cfg.endswith("-98"):        # C++98 build: its own glue, functions of one and two arguments only
            for t, part, extra in tus:
                if t not in ("unary", "binary"): continue
                for F in ("float", "double"):
                    tab = "tab98_%s_%d_%s" % (t, part, F)
                    x = "-DREG_F=%s -DREG_PART=%d -DREG_UNARY=%d -DREG_TAB=%s" % (F, part, t == "unary", tab)
                    objs.append(self.obj(cfg, "reg98.cpp", cxx, "%s -std=gnu++98 %s" % (flags, x), "reg98_" + tab, 3))
                    objs.append(self.obj(cfg, "reg98_glue.cpp", cxx, x, "glue_" + tab, 1))
            tus = []
        w = {"ternary": 8, "binary": 4, "misc": 3, "unary": 3, "vec": 5}
        for t, part, extra in tus:
            for F in ("float", "double"):
                x = "%s %s -DREG_F=%s" % (flags, extra, F) + (" -DREG_PART=%d" % part if part else "")
                objs.append(self.obj(cfg, "reg_%s.cpp" % t, cxx, x, "reg_%s_%d_%s" % (t, part, F), w[t] * (3 if kind else 1)))
        exe = os.path.join(self.work, cfg, main)
        link = re.sub(r"-O\d|-m\w\S*|-U\S+|-D\S+", "", flags) if kind else ""
        self.links.append((cfg, exe, "%s %s -o %s %s -lpthread %s" % (cxx if kind else "g++", link, exe, " ".join(objs), libs)))
        return exe

    def run(self):
        self.jobs.sort(key=lambda j: -j[0])
        def one(j):
            r = sh(j[2])
            if r.returncode and "/reg_vec.cpp" in j[2]:      # internal helpers were reorganised: observe the public class only
                r2 = sh(j[2] + " -DREG_NO_DETAIL")
                if r2.returncode == 0: r = r2
            return j[1], r, j[2]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for cfg, r, cmd in ex.map(one, self.jobs):
                if r.returncode:
                    self.fail.setdefault(cfg, cmd + "\n" + r.stdout[-3000:])
            if "host" in self.fail:
                raise NoVerdict("harness does not compile:\n" + self.fail["host"])
            def ln(l):
                return l[0], sh(l[2]), l[2]
            for cfg, r, cmd in ex.map(ln, [l for l in self.links if l[0] not in self.fail]):
                if r.returncode:
                    self.fail.setdefault(cfg, cmd + "\n" + r.stdout[-3000:])
        for cfg in self.fail:
            if cfg in MUST_BUILD:
                raise NoVerdict("configuration %s does not build:\n%s" % (cfg, self.fail[cfg]))

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:handle_abort=1:allocator_may_return_null=1",
    "UBSAN_OPTIONS": "print_stacktrace=0",
    "MSAN_OPTIONS": "abort_on_error=0",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66",
}
_procs, _plock = set(), threading.Lock()

def execute(exe, args, timeout, env=None):
    """-> (returncode, output, timed_out)"""
    e = dict(os.environ); e.update(SAN_ENV)
    e["LC_ALL"] = "C"
    if env: e.update(env)
    out = tempfile.TemporaryFile(dir=os.path.dirname(exe))
    p = subprocess.Popen([exe] + args, stdout=out, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=e, start_new_session=True)
    with _plock: _procs.add(p)
    to = False
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        to = True
        p.send_signal(signal.SIGTERM)
        try: p.wait(10)
        except subprocess.TimeoutExpired: pass
    try: os.killpg(p.pid, signal.SIGKILL)
    except OSError: pass
    p.wait()
    with _plock: _procs.discard(p)
    out.seek(0)
    return p.returncode, out.read().decode(errors="replace"), to

def site_of(crumb):
    return re.sub(r"\s+(n=|splat|case|step|in\+).*", "", crumb).strip()

def judge(rc, out, timed_out):
    """-> (result dict or None, [(key, detail)])"""
    res, viol = None, []
    m = re.search(r"^RESULT (\{.*\})\s*$", out, flags=re.M)
    if m:
        res = json.loads(m.group(1))
        for v in res.get("violations", []):
            viol.append((v["key"], "%s [%d occurrences]" % (v["detail"], v["count"])))
    crumb = re.findall(r"^CRASH-AT (.*)$", out, flags=re.M)
    crumb = crumb[-1] if crumb else ""
    for f, msg in sorted(set(re.findall(r"(\S+?):\d+:\d+: runtime error: (.*)", out))):
        msg = re.sub(r"0x[0-9a-f]+", "ADDR", msg)
        msg = re.sub(r"[-+]?\d[\d.]*(e[-+]?\d+)?|[-+]?\b(inf|nan)\b", "N", msg)
        viol.append(("ubsan %s: %s" % (os.path.basename(f), msg), (re.search(r".*%s.*runtime error.*" % re.escape(os.path.basename(f)), out) or [""])[0]))
    for kind, what in sorted(set(re.findall(r"(?:ERROR|WARNING): (AddressSanitizer|MemorySanitizer|ThreadSanitizer): ([\w-]+(?: [\w-]+)?)", out))):
        frame = re.search(r"#\d+ .*?((?:detail/|vec/)?\w+\.hpp):\d+", out)
        viol.append(("%s %s %s" % (kind, what, frame.group(1) if frame else ""), "at %s; %s" % (crumb, out[out.find(kind):][:600].replace("\n", " | "))))
    sig = re.search(r"^SIGNAL (\d+)$", out, flags=re.M)
    if not timed_out:
        if sig:
            viol.append(("crash %s" % site_of(crumb), "signal %s in %s" % (sig.group(1), crumb)))
        elif rc < 0 and rc != -signal.SIGKILL and rc != -signal.SIGTERM and not res:
            viol.append(("crash %s" % site_of(crumb), "signal %d %s" % (-rc, crumb)))
        elif not res and not viol:
            raise NoVerdict("monitor ended with status %d and no result: %s" % (rc, out[-1500:]))
    # collapse duplicates
    seen, v2 = set(), []
    for k, d in viol:
        if k not in seen:
            seen.add(k); v2.append((k, d))
    return res, v2, crumb

def run_monitor(exe, args, timeout):
    rc, out, to = execute(exe, args, timeout)
    res, viol, crumb = judge(rc, out, to)
    if to:
        site = site_of(crumb)
        if not site or site == "start":
            raise NoVerdict("monitor timed out: %s %s" % (os.path.basename(exe), " ".join(args)))
        # is it this call that does not return?  run its call site alone
        rc2, out2, to2 = execute(exe, args + ["--only=" + site], timeout)
        _, _, crumb2 = judge(rc2, out2, to2)
        if to2 and site_of(crumb2) == site:
            viol.append(("hang %s" % site, "call does not return within %d s: %s" % (timeout, crumb2)))
        else:
            raise NoVerdict("monitor timed out at %s, not reproducible" % crumb)
    return res, viol

def load_known():
    known = []
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) config=(\S+) match=(\S+) :: (.*)", line)
            if m:
                known.append(dict(property=m.group(1), config=m.group(2), match=m.group(3), text=m.group(4).strip(), hit=False))
    return known

# ---------------------------------------------------------------- one check
def check(pid, tier, seed, only_cfg=None, keep=None):
    t0 = time.time()
    spec = P[pid]
    thorough = tier == "thorough"
    cfgs = list(spec["full"] if thorough else spec["quick"])
    shards = spec["tshards"] if thorough else spec["shards"]
    tus = spec.get("thorough_tus", spec["tus"]) if thorough else spec["tus"]
    if spec.get("kind") == "dump" and "g-sse2" not in cfgs: cfgs.insert(0, "g-sse2")
    if only_cfg:
        cfgs = [c for c in cfgs if c in only_cfg or (spec.get("kind") == "dump" and c == "g-sse2")]
    timeout = 6 * 3600 if thorough else 150
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    results, violations, notes = [], [], []
    try:
        dictfile = os.path.join(work, "dict.txt")
        ndict = make_dict(dictfile)
        b = Builder(work)
        exes = []
        for c in cfgs:
            t = tus
            if c == "g-sse1" and pid != "C14":     # no double precision in this build
                pass
            exes.append((c, spec["main"], b.program(c, spec["main"], t, spec.get("libs", ""))))
            if spec.get("extra_main"):
                exes.append((c, spec["extra_main"], b.program(c, spec["extra_main"], VEC)))
        b.run()
        tbuild = time.time() - t0
        for c in sorted(b.fail):
            notes.append("configuration %s did not build, not observed" % c)
            print("NOTE: configuration %s did not build:\n%s" % (c, b.fail[c][-1500:]))
        exes = [e for e in exes if e[0] not in b.fail]
        runs = []
        for c, main, exe in exes:
            for k in range(shards):
                runs.append((c, main, exe, seed * 1000 + k if k else seed, k))
        def args(c, s, k):
            return ["--seed=%d" % s, "--shard=%d" % k, "--tier=%s" % tier, "--config=%s" % c, "--prop=%s" % pid, "--dict=%s" % dictfile]
        def go(r):
            c, main, exe, s, k = r
            a = args(c, s, k)
            if spec.get("kind") == "dump":
                a.append("--ref=%s/log.%d" % (work, s))
            if c in SAN and SAN[c][2] == "tsan":
                a += ["--per=2", "--rounds=%d" % (6 if thorough else 2)]
            res, viol = run_monitor(exe, a, timeout)
            return c, main, s, res, viol
        todo = runs
        if spec.get("kind") == "dump":
            # the log of the reference build first; it also checks itself against its own log
            for r in [r for r in runs if r[0] == "g-sse2"]:
                res, viol = run_monitor(r[2], args(r[0], r[3], r[4]) + ["--write=%s/log.%d" % (work, r[3])], timeout)
                results.append((r[0] + ":log", r[1], r[3], res))
                violations += [(r[0], r[3], k, d) for k, d in viol]
                if not res or viol: todo = []
        width = 1 if spec.get("serial") or (thorough and spec["main"] == "p_point") else NCPU
        with cf.ThreadPoolExecutor(width) as ex:
            for c, main, s, res, viol in ex.map(go, todo):
                results.append((c, main, s, res))
                violations += [(c, s, k, d) for k, d in viol]
    finally:
        with _plock:
            for p in list(_procs):
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
        shutil.rmtree(work, ignore_errors=True)

    known = [k for k in load_known() if k["property"] == pid]
    fresh = []
    for c, s, key, detail in violations:
        for k in known:
            if fnmatch.fnmatch(c, k["config"]) and re.search(k["match"], key + " " + detail):
                k["hit"] = True
                break
        else:
            fresh.append((c, s, key, detail))
    for k in known:
        if k["hit"]:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))

    ev = sum(r["evaluations"] for _, _, _, r in results if r)
    dn = sum(r["distinct"] for _, _, _, r in results if r)
    if not fresh and (ev == 0 or dn == 0):
        raise NoVerdict("the monitors observed nothing")
    per, samples, maxima = {}, [], {}
    for c, main, s, r in results:
        if not r: continue
        d = per.setdefault(c, {"runs": 0, "evaluations": 0, "distinct": 0})
        d["runs"] += 1; d["evaluations"] += r["evaluations"]; d["distinct"] += r["distinct"]
        for k, v in r.get("counters", {}).items(): d[k] = max(d.get(k, 0), v) if k in ("threads", "max_concurrent_calls_observed", "call_sites", "max_stack_bytes", "syscall_confinement_active") else d.get(k, 0) + v
        for k, v in r.get("maxima", {}).items(): maxima[k] = max(maxima.get(k, 0), v)
        for x in r.get("samples", [])[:2]:
            if len(samples) < 24: samples.append("%s seed %d: %s" % (c, s, x))
    cov = dict(evaluations=ev, distinct_nontrivial=dn,
               rule=spec["rule"] + "; 'evaluations' counts samples or results judged (the same case in another build counts as another case)",
               samples=samples or ["(none kept)"], builds=per, dictionary_values=ndict, build_s=round(tbuild, 1), notes=notes)
    if maxima: cov["largest_observed"] = maxima
    evd = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=ASSUME["common"],
               wall_s=round(time.time() - t0, 2), violations=len(fresh))
    if not only_cfg:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(evd, f, indent=1)
    print("%s %s seed %d: %d evaluations, %d distinct cases, %d builds, %.1f s (build %.1f s)" % (pid, tier, seed, ev, dn, len(per), time.time() - t0, tbuild))
    if fresh:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (pid, tier, seed))
        with open(path, "w") as f:
            json.dump(dict(property=pid, tier=tier, seed=seed, configs=sorted({c for c, _, _, _ in fresh}),
                           violations=[dict(config=c, run_seed=s, key=k, detail=d) for c, s, k, d in fresh],
                           how="python3 check.py --replay " + os.path.relpath(path, VERIF)), f, indent=1)
        for c, s, k, d in fresh[:12]:
            print("  [%s] %s: %s" % (c, k, d[:400]))
        if len(fresh) > 12: print("  ... %d more in the replay file" % (len(fresh) - 12))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0

def selftest():
    for tool in ("g++", "clang++"):
        if not shutil.which(tool): print("missing", tool); return 1
    d = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        r = sh("g++ %s -O1 -I%s -c %s/mon.cpp -o %s/mon.o" % (STD, HARNESS, HARNESS, d))
        print(r.stdout); n = make_dict(d + "/dict")
        print("monitor runtime compiles: %s; dictionary: %d values; properties: %s" % (r.returncode == 0, n, " ".join(P)))
        return r.returncode
    finally:
        shutil.rmtree(d, ignore_errors=True)

def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pid = None; cfgs = None; i = 0
    while i < len(argv):
        a = argv[i]
        if a == "--selftest": return selftest()
        if a == "--tier": tier = argv[i + 1]; i += 1
        elif a == "--seed": seed = int(argv[i + 1]); i += 1
        elif a == "--configs": cfgs = argv[i + 1].split(","); i += 1
        elif a == "--replay":
            r = json.load(open(argv[i + 1])); i += 1
            pid, tier, seed, cfgs = r["property"], r["tier"], r["seed"], r["configs"]
        else: pid = a
        i += 1
    if pid not in P:
        print(__doc__); return 2
    try:
        return check(pid, tier, seed, cfgs)
    except NoVerdict as e:
        print("NO VERDICT for %s: %s" % (pid, e))
        return 2

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

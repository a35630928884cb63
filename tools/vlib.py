"""Shared machinery: build the engine, lower /repo to IR, run jobs, replay, write evidence."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARN = os.path.join(VERIF, "harness")
DEFS = ["-DSIMD_USE_ACCEL=1", "-DRFX_USE_ACCEL_AMD64=1"]
INCS = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")]
PASSES = "sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg,early-cse,adce"
NCPU = int(os.environ.get("VERIF_JOBS", "8"))


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    return r.returncode, r.stdout


def must(cmd, **kw):
    rc, out = sh(cmd, **kw)
    if rc != 0:
        raise CheckError("command failed (%d): %s\n%s" % (rc, " ".join(cmd), out[-3000:]))
    return out


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def build_engine():
    srcs = [os.path.join(VERIF, "engine", f) for f in ("exec.cpp", "solver.cpp", "term.cpp")]
    hdrs = [os.path.join(VERIF, "engine", f) for f in ("solver.h", "term.h")]
    key = digest(srcs + hdrs)
    d = os.path.join(BUILD, "engine-" + key)
    exe = os.path.join(d, "rfxsym")
    if os.path.exists(exe):
        return exe
    os.makedirs(d, exist_ok=True)
    flags = ["-O2", "-w", "-fno-rtti", "-std=c++17", "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE",
             "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS"]
    tmp = tempfile.mkdtemp(dir=BUILD)
    try:
        with ThreadPoolExecutor(3) as ex:
            list(ex.map(lambda s: must(["g++"] + flags + ["-c", s, "-o", os.path.join(tmp, os.path.basename(s) + ".o")]), srcs))
        must(["g++"] + [os.path.join(tmp, os.path.basename(s) + ".o") for s in srcs] +
             ["-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3", "-o", os.path.join(tmp, "rfxsym")])
        os.replace(os.path.join(tmp, "rfxsym"), exe)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


def repo_c():
    fs = sorted(glob.glob(os.path.join(REPO, "src", "*.c")) + glob.glob(os.path.join(REPO, "src", "amd64", "*.c")))
    if not fs:
        raise CheckError("no sources in " + REPO)
    return fs


def repo_asm():
    return sorted(glob.glob(os.path.join(REPO, "src", "amd64", "*.asm")))


def repo_all():
    r = []
    for pat in ("src/*", "src/amd64/*", "src/x86/*", "include/*"):
        r += [f for f in glob.glob(os.path.join(REPO, pat)) if os.path.isfile(f)]
    return r


class Work:
    """One run's scratch directory with the lowered repository."""

    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="run-", dir=BUILD)
        self.bcs = None
        self.native_objs = None
        self.cache = {}
        self.lifted = None
        self.why = {}
        self.stop = None  # set when a violation has been confirmed: the jobs still running get this long

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def cc_bc(self, src, out, extra=()):
        must(["clang-18", "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-emit-llvm", "-c", "-w"] + DEFS + INCS +
             ["-I" + HARN, "-I" + self.dir] + list(extra) + [src, "-o", out])
        return out

    def lower_repo(self):
        if self.bcs is None:
            d = os.path.join(self.dir, "bc")
            os.makedirs(d, exist_ok=True)
            fs = repo_c()
            with ThreadPoolExecutor(NCPU) as ex:
                self.bcs = list(ex.map(lambda f: self.cc_bc(f, os.path.join(d, os.path.relpath(f, REPO).replace("/", "_") + ".bc")), fs))
        return self.bcs

    def lift_asm(self):
        """the assembly, lifted to C from its assembled object"""
        if self.lifted is None:
            d = os.path.join(self.dir, "lift")
            os.makedirs(d, exist_ok=True)
            fs = [f for f in repo_asm() if "cpuid" not in os.path.basename(f)]
            if not fs:
                raise CheckError("no assembly sources")
            def one(f):
                o = os.path.join(d, os.path.basename(f)[:-4] + ".c")
                must([sys.executable, os.path.join(VERIF, "tools", "asmlift.py"), f, o, os.path.join(REPO, "src")])
                return o
            with ThreadPoolExecutor(NCPU) as ex:
                self.lifted = list(ex.map(one, fs))
        return self.lifted

    def signatures(self, bc):
        """functions of a bitcode file: name -> type, and the names used in it"""
        key = ("sig", bc)
        if key not in self.cache:
            sig, body, defined = {}, [], set()
            for l in must(["llvm-dis-18", bc, "-o", "-"]).split("\n"):
                m = re.match(r"(define|declare)\s(.*?)@([\w.$]+)\((.*)\)", l)
                if not m:
                    body.append(l)
                    continue
                ty = [re.findall(r"(?:^|\s)(void|ptr|i\d+|float|double|\.\.\.|<[^>]*>|\[[^\]]*\]|%[\w.\"]+(?= byval))", " " + t)[:1] for t in [m.group(2).split(" dso_local ")[-1]] + (m.group(4).split(",") if m.group(4).strip() else [])]
                sig[m.group(3)] = str(ty)
                if m.group(1) == "define" and " internal " not in l:
                    defined.add(m.group(3))
            self.cache[key] = (sig, set(re.findall(r"@([\w.$]+)", "\n".join(x for x in body if not x.startswith("!")))), defined)
        return self.cache[key]

    def check_stubs(self, hb, bcs):
        """a function the harness replaces must be one the tree uses, with the same type"""
        hs, _, hd = self.signatures(hb)
        for f in sorted(f for f in hd - {"harness"} if "cpuid" not in f):
            users = [b for b in bcs if f in self.signatures(b)[1] and f in self.signatures(b)[0]]
            if not users:
                raise CheckError("the tree does not call %s, which the harness replaces" % f)
            for b in users:
                if self.signatures(b)[0][f] != hs[f]:
                    raise CheckError("%s is %s in the tree, %s in the harness" % (f, self.signatures(b)[0][f], hs[f]))

    def cpuid(self):
        """the name of the assembly function that asks the processor, which harnesses replace"""
        if "cpuid" not in self.cache:
            bcs = self.lower_repo()
            sg = [self.signatures(b) for b in bcs]
            names = sorted({f for s, u, d in sg for f in s if "cpuid" in f} - {f for s, u, d in sg for f in d})
            self.cache["cpuid"] = "-DCPUID_NAME=" + (names[0] if len(names) == 1 else "cpuid_amd64")
        return self.cache["cpuid"]

    def module(self, harness, defs=(), extra_c=()):
        """link harness over the repository's IR (harness definitions override)"""
        key = (harness, tuple(defs), tuple(extra_c))
        if key in self.cache:
            return self.cache[key]
        bcs = self.lower_repo()
        extra_c = [x for e in extra_c for x in (self.lift_asm() if e == "ASM" else [e])]
        n = os.path.join(self.dir, "m%d" % len(self.cache))
        self.cache[key] = None
        hb = self.cc_bc(os.path.join(HARN, harness), n + ".h.bc", tuple(defs) + (self.cpuid(),))
        self.check_stubs(hb, bcs)
        ov = ["--override=" + hb]
        for i, c in enumerate(extra_c):
            ov.append("--override=" + self.cc_bc(c, n + ".x%d.bc" % i, defs))
        must(["llvm-link-18"] + bcs + ov + ["-o", n + ".l.bc"])
        must(["opt-18", "-passes=" + PASSES, n + ".l.bc", "-o", n + ".bc"])
        self.cache[key] = n + ".bc"
        return n + ".bc"

    def native(self, harness, defs=()):
        """native executable of the real sources (C and assembly) with the same harness"""
        key = ("native", harness, tuple(defs))
        if key in self.cache:
            return self.cache[key]
        d = os.path.join(self.dir, "nat")
        os.makedirs(d, exist_ok=True)
        san = ["-g", "-O1", "-fsanitize=address,shift-exponent,integer-divide-by-zero,unreachable", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-w"]
        if self.native_objs is None:
            def cc(f):
                o = os.path.join(d, os.path.relpath(f, REPO).replace("/", "_") + ".o")
                if f.endswith(".asm"):
                    must(["nasm", "-f", "elf64", "-DASM_ARCH_AMD64", "-I" + os.path.join(REPO, "src") + "/", f, "-o", o])
                else:
                    must(["gcc"] + san + DEFS + INCS + ["-c", f, "-o", o])
                    sh(["objcopy", "--rename-section", ".data=libdata", "--rename-section", ".bss=libbss", o])
                return o
            with ThreadPoolExecutor(NCPU) as ex:
                self.native_objs = list(ex.map(cc, repo_c() + repo_asm()))
            must(["gcc"] + san + ["-I" + HARN, "-c", os.path.join(HARN, "native_rt.c"), "-o", os.path.join(d, "rt.o")])
        exe = os.path.join(d, "h%d" % len(self.cache))
        must(["gcc"] + san + DEFS + INCS + ["-I" + HARN, "-I" + self.dir, "-DNATIVE=1", self.cpuid()] + list(defs) + ["-c", os.path.join(HARN, harness), "-o", exe + ".o"])
        must(["gcc"] + san + [exe + ".o"] + self.native_objs + [os.path.join(d, "rt.o"), "-Wl,--allow-multiple-definition",
             "-Wl,--wrap=malloc,--wrap=calloc,--wrap=free,--wrap=aligned_alloc", "-no-pie", "-o", exe])
        self.cache[key] = exe
        return exe


class Job:
    def __init__(self, name, harness, params=None, defs=(), narrow=False, fork_shift=False, time=300, covers=(), extra_c=(), samples=1, min_paths=1, optional=False, fallback=(), weight=1):
        self.name, self.harness, self.params, self.defs = name, harness, dict(params or {}), tuple(defs)
        self.narrow, self.fork_shift, self.time, self.covers = narrow, fork_shift, time, tuple(covers)
        self.extra_c, self.samples, self.min_paths = tuple(extra_c), samples, min_paths
        # optional: replaces an internal function, so a restructured tree may not link with it; then it is left out
        # fallback: jobs with smaller bounds, run when this one cannot be completed
        self.optional, self.fallback, self.weight = optional, list(fallback), weight


def write_cex(path, inputs):
    with open(path, "w") as f:
        for n, w, v in inputs:
            f.write("%s %d %d\n" % (n.replace(" ", "_"), w, v))


def replay(work, job, inputs, tag, known=False, tries=False):
    exe = work.native(job.harness, job.defs)
    cex = os.path.join(work.dir, "cex-" + tag)
    write_cex(cex, inputs)
    env = dict(os.environ, SYM_CEX=cex, ASAN_OPTIONS="detect_leaks=0:exitcode=66:abort_on_error=0", UBSAN_OPTIONS="exitcode=67")
    if known:
        env["SYM_KNOWN"] = "1"
    for k, v in job.params.items():
        env["SYMP_" + k] = str(v)
    # what new memory contains is not an input: a violation may depend on it
    for fill in (("0xA5",) if not tries else ("0xA5", "0", "0xFF", "1", "0x80")):
        try:
            r = subprocess.run([exe], env=dict(env, SYM_FILL=fill), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, text=True, errors="replace")
            if r.returncode or fill == "0x80" or not tries:
                break
        except subprocess.TimeoutExpired:
            return 124, "timeout"
    return r.returncode, r.stdout


MEM_LIMIT = 3600 << 20      # per job; eight run at a time


def run_job(exe, work, job, until):
    limit = job.time if until is None else min(job.time, int(until - time.time()))
    bc = work.cache[(job.harness, job.defs, job.extra_c)]
    if bc is None:
        return {"status": "unlinkable", "why": "the harness does not link with this tree: " + work.why.get((job.harness, job.defs, job.extra_c), ""), "wall": 0.0}
    if work.stop and time.time() > work.stop - 15:
        return {"status": "incomplete", "why": "stopped after a violation was found", "wall": 0.0}
    if limit < 5:
        return {"status": "incomplete", "why": "no time left", "wall": 0.0}
    out = os.path.join(work.dir, re.sub(r"\W", "_", job.name) + ".json")
    cmd = [exe, "--time", str(limit), "--out", out, "--samples", str(job.samples)]
    if job.narrow:
        cmd.append("--narrow")
    if job.fork_shift:
        cmd.append("--fork-shift")
    for k, v in job.params.items():
        cmd += ["-p", "%s=%s" % (k, v)]
    cmd.append(bc)
    t0 = time.time()
    logf = out + ".log"
    with open(logf, "w") as lf:
        pr = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT)
        while True:
            try:
                rc = pr.wait(timeout=1)
                break
            except subprocess.TimeoutExpired:
                over = time.time() - t0 > limit + 30
                try:
                    with open("/proc/%d/statm" % pr.pid) as sf:
                        big = int(sf.read().split()[1]) * 4096 > MEM_LIMIT
                except (OSError, IndexError):
                    big = False
                if over or big or (work.stop and time.time() > work.stop):
                    pr.kill()
                    pr.wait()
                    return {"status": "incomplete", "why": "wall timeout" if over else "memory limit" if big else "stopped after a violation was found", "wall": time.time() - t0}
    with open(logf, errors="replace") as lf:
        log = lf.read()
    try:
        with open(out) as f:
            res = json.load(f)
    except Exception:
        res = {"status": "error", "why": "engine exit %d: %s" % (rc, log[-800:])}
    res["wall"] = time.time() - t0
    if log:
        res["log"] = log[-2000:]
    return res

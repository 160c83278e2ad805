"""Shared driver code: builds bitcode from /repo's working tree, builds the analyzers, writes evidence."""
import os, sys, json, hashlib, subprocess, time, re, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KFR_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
CLANGXX = "/usr/bin/clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"
LLVM = "/usr/lib/llvm-18"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

ARCHS = ["sse2", "sse41", "avx", "avx2", "avx512"]
ARCH_FLAGS = {
    "sse2": "-mno-sse3 -msse2", "sse41": "-msse4.1", "avx": "-msse4.2 -mavx",
    "avx2": "-msse4.2 -mavx2 -mfma",
    "avx512": "-msse4.2 -mavx2 -mfma -mavx512f -mavx512cd -mavx512bw -mavx512dq -mavx512vl",
}
MULTI = ["-DCMT_MULTI=1"] + ["-DCMT_MULTI_ENABLED_%s=1" % a.upper() for a in ARCHS] + \
        ['-DKFR_ENABLED_ARCHS="sse2, sse41, avx, avx2, avx512"']
COMMON = ["-I" + os.path.join(REPO, "include"), "-std=gnu++17", "-DNDEBUG", "-w", "-gline-tables-only",
          "-fno-color-diagnostics"]

class AnalysisBroken(Exception):
    """The analysis could not be carried out (build failure, vanished anchor): error exit, not a verdict."""

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    return r

_hash = {}
def tree_hash(*dirs):
    key = tuple(dirs)
    if key in _hash: return _hash[key]
    h = hashlib.sha256()
    for d in dirs:
        if os.path.isfile(d):
            files = [d]
        else:
            files = []
            for root, ds, fs in os.walk(d):
                ds.sort()
                files += [os.path.join(root, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode()); h.update(b"\0")
            with open(f, "rb") as fh: h.update(fh.read())
            h.update(b"\0")
    _hash[key] = h.hexdigest()
    return _hash[key]

def repo_hash():
    return tree_hash(os.path.join(REPO, "include"), os.path.join(REPO, "src"))

def run_cached(cmd, out, deps_hash):
    """Run cmd (which writes `out`) unless an output for the same command and inputs exists."""
    os.makedirs(CACHE, exist_ok=True)
    key = hashlib.sha256((" ".join(cmd) + deps_hash).encode()).hexdigest()[:24]
    path = os.path.join(CACHE, "%s-%s" % (key, os.path.basename(out)))
    if not os.path.exists(path):
        tmp = path + ".tmp%d" % os.getpid()
        r = sh([c.replace("@OUT@", tmp) for c in cmd])
        if r.returncode != 0 or not os.path.exists(tmp):
            raise AnalysisBroken("command failed: %s\n%s" % (" ".join(cmd), (r.stdout + r.stderr)[-6000:]))
        os.rename(tmp, path)
    return path

def compile_bc(src, name, flags, extra_dep=None):
    dep = repo_hash() + tree_hash(src)
    if extra_dep: dep += tree_hash(*extra_dep)
    cmd = [CLANGXX] + COMMON + flags + ["-emit-llvm", "-c", src, "-o", "@OUT@"]
    return run_cached(cmd, name + ".bc", dep)

NOOPT = ["-O2", "-Xclang", "-disable-llvm-passes"]

def lib_tus(archs=None, parts=("dft", "dsp", "io", "capi")):
    """(name, src, flags) of every library TU of the multi-architecture build."""
    res = []
    archs = archs or ARCHS
    for part in ("dft", "dsp"):
        if part not in parts: continue
        d = os.path.join(REPO, "src", part)
        srcs = sorted(f for f in os.listdir(d) if f.endswith(".cpp"))
        if not srcs: raise AnalysisBroken("no sources in " + d)
        for f in srcs:
            for a in archs:
                fl = MULTI + ARCH_FLAGS[a].split() + ["-fPIC"]
                if a == "sse2": fl.append("-DCMT_BASE_ARCH=1")
                if part == "dft": fl += ["-ffp-contract=fast"]
                res.append(("%s.%s.%s" % (part, f[:-4], a), os.path.join(d, f), fl))
    if "io" in parts:
        d = os.path.join(REPO, "src", "io")
        for f in sorted(os.listdir(d)):
            if f.endswith(".cpp"):
                res.append(("io." + f[:-4], os.path.join(d, f), ["-mno-sse3", "-msse2", "-DKFR_ENABLE_FLAC=1", "-fPIC"]))
    if "capi" in parts:
        d = os.path.join(REPO, "src", "capi")
        for f in sorted(os.listdir(d)):
            if f.endswith(".cpp"):
                res.append(("capi." + f[:-4], os.path.join(d, f),
                            ["-DKFR_BUILDING_DLL=1", "-Dkfr_capi_EXPORTS", "-fPIC", "-fvisibility=hidden",
                             '-DKFR_ENABLED_ARCHS="sse2, sse41, avx, avx2, avx512"']))
    return res

def build_bitcode(tus, opt=NOOPT):
    """Compile TUs in parallel; returns {name: path}. A TU that does not compile breaks the analysis."""
    out = {}
    # big ones first
    order = sorted(tus, key=lambda t: -sum(k in t[0] for k in ("fft-impl", "dft-impl")) * 10)
    with ThreadPoolExecutor(JOBS) as ex:
        futs = {t[0]: ex.submit(compile_bc, t[1], t[0], list(opt) + t[2]) for t in order}
        for n, f in futs.items(): out[n] = f.result()
    return out

def build_tool(name, sources=None):
    """Compile an analyzer in /verif/sa against LLVM 18."""
    d = os.path.join(VERIF, "sa")
    srcs = [os.path.join(d, s) for s in (sources or [name + ".cpp"])]
    hdrs = sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".h"))
    cmd = [CLANGXX, "-O1", "-std=c++17", "-fno-exceptions", "-fno-rtti", "-w", "-D__STDC_CONSTANT_MACROS",
           "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-D_GNU_SOURCE", "-I" + LLVM + "/include"] + \
          srcs + ["-L" + LLVM + "/lib", "-Wl,-rpath," + LLVM + "/lib", "-lLLVM-18", "-o", "@OUT@"]
    dep = tree_hash(*(srcs + hdrs))
    p = run_cached(cmd, name, dep)
    os.chmod(p, 0o755)
    return p

def run_tool(args, timeout=850):
    r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    if r.returncode != 0:
        raise AnalysisBroken("analyzer failed (%d): %s\n%s" % (r.returncode, " ".join(args)[:400], r.stderr[-4000:]))
    return r.stdout

def run_tool_json(args, timeout=850):
    return [json.loads(l) for l in run_tool(args, timeout).splitlines() if l.startswith("{")]

def demangle(names):
    names = list(names)
    if not names: return {}
    r = subprocess.run([LLVM + "/bin/llvm-cxxfilt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return dict(zip(names, r.stdout.splitlines()))

def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    with open(p) as f: return json.load(f)["findings"]

class Check:
    """One property check: collects obligations and violations, writes evidence, decides the exit code."""
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.tier = "thorough" if TIER == "thorough" or "--thorough" in sys.argv else "quick"
        self.t0 = time.time()
        self.viol = []          # (key, text)
        self.cov = {}
        self.assumptions = []
        self.obl = 0
        self.samples = []
    def obligation(self, n=1): self.obl += n
    def violation(self, key, text): self.viol.append((key, text))
    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)
    def floor(self, what, n, minimum):
        if n < minimum:
            raise AnalysisBroken("%s: only %d instances of '%s' found, at least %d expected" % (self.prop, n, what, minimum))
    def finish(self, explanation, **cov):
        known = [k for k in known_findings() if k["property"] == self.prop and k.get("status") == "known"]
        kkeys = {k["key"]: k for k in known}
        new, old, seen = [], [], set()
        for k, t in self.viol:
            if k in seen: continue
            seen.add(k)
            (old if k in kkeys else new).append((k, t))
        c = dict(cov)
        c["explanation"] = explanation
        c["obligations"] = self.obl
        c["discharged"] = self.obl - len(new) - len(old) if self.obl >= len(new) + len(old) else 0
        c.setdefault("checker_cmd", "python3 checks/%s.py" % self.prop)
        c.setdefault("trusted_base", ["clang 18 front end and optimiser passes", "LLVM 18 IR semantics", "analyzers in /verif/sa", "drivers in /verif/checks"])
        if self.samples: c["samples"] = self.samples
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": self.level, "coverage": c,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        for k, t in old: print("KNOWN-FINDING: property=%s %s" % (self.prop, kkeys[k].get("what", t)))
        if new:
            rp = os.path.join(VERIF, "evidence", self.prop + ".violations.txt")
            with open(rp, "w") as f:
                for k, t in new: f.write("[%s]\n%s\n\n" % (k, t))
            for k, t in new[:20]: print("  - %s: %s" % (k, t))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        print("OK property=%s obligations=%d (%.1fs)" % (self.prop, self.obl, time.time() - self.t0))
        return 0

def main(fn):
    try:
        sys.exit(fn())
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN: %s" % e)
        sys.exit(3)

"""Probe generation and value-flow comparison: pr_<mode>_<id> (library code) against sp_<mode>_<id> (scalar definition)."""
from vlib import *
import threading
from concurrent.futures import ThreadPoolExecutor

OPT = ["-O2", "-g0", "-fno-vectorize", "-fno-slp-vectorize", "-fno-exceptions", "-fno-math-errno", "-fno-asynchronous-unwind-tables", "-fno-stack-protector",
       "-mllvm", "-unroll-threshold=20000", "-mllvm", "-unroll-full-max-count=4096", "-mllvm", "-unroll-max-percent-threshold-boost=1000", "-mllvm", "-two-entry-phi-node-folding-threshold=100", "-mllvm", "-phi-node-folding-threshold=100",
       "-mllvm", "-inline-threshold=100000", "-fbracket-depth=1024", "-ftemplate-depth=2048"]
WIDTH = {"sse2": 16, "sse41": 16, "avx": 32, "avx2": 32, "avx512": 64}

class Probes:
    def __init__(self, preamble): self.pre = preamble; self.items = []; self.ids = set()
    def add(self, mode, name, args, pr, sp, ret="void", group=None):
        """args: C parameter list; pr/sp: bodies"""
        pid = "%s_%s" % (mode, re.sub(r"\W+", "_", name))
        if pid in self.ids: raise AnalysisBroken("duplicate probe " + pid)
        self.ids.add(pid)
        self.items.append((pid, args, pr, sp, ret, group or name.split("_")[0]))
    def text(self, items):
        out = []
        for pid, args, pr, sp, ret, g in items:
            out.append('extern "C" __attribute__((used)) %s pr_%s(%s) { %s }' % (ret, pid, args, pr))
            out.append('extern "C" __attribute__((used)) %s sp_%s(%s) { %s }' % (ret, pid, args, sp))
        return "\n".join(out) + "\n"

def shard(items, k):
    n = max(1, (len(items) + k - 1) // k)
    return [items[i:i + n] for i in range(0, len(items), n)]

def reoptimise(bc, name, opt, rounds):
    """further rounds of the optimiser: values forwarded late in the first one make more loop bounds constant"""
    ll = [opt[i + 1] for i in range(len(opt)) if opt[i] == "-mllvm"]
    return run_cached([os.path.join(LLVM, "bin", "opt"), "-passes=" + ",".join(["default<O2>"] * rounds), "-vectorize-loops=false", "-vectorize-slp=false"] + ll + [bc, "-o", "@OUT@"], name + ".re.bc", tree_hash(bc))

def run_probes(c, P, archs, shards=24, flags=(), filt=None, opt=None, tag="", reopt=None):
    """Compile the probes for each architecture and compare. Returns {arch: {id: result}}; failures become violations."""
    return run_configs(c, P, [(a + tag, ARCH_FLAGS[a].split() + list(flags), (lambda i, a=a: filt(a, i)) if filt else None) for a in archs], shards, opt, reopt)

def put(path, txt):
    if not os.path.exists(path):
        t = path + ".tmp%d.%d" % (os.getpid(), threading.get_ident()); open(t, "w").write(txt); os.rename(t, path)
    return path

def run_configs(c, P, configs, shards=24, opt=None, reopt=None):
    """configs: (name, compiler flags, item filter)."""
    d = os.path.join(CACHE, "probes"); os.makedirs(d, exist_ok=True)
    res = {}; jobs = []; opt = list(opt or OPT)
    pre = put(os.path.join(d, "%s-%s.hpp" % (c.prop, hashlib.sha256(P.pre.encode()).hexdigest()[:16])), P.pre)
    def pch(name, fl):
        dep = repo_hash() + tree_hash(pre)
        cmd = [CLANGXX] + COMMON + opt + fl + ["-Xclang", "-fno-pch-timestamp", "-x", "c++-header", pre, "-o", "@OUT@"]
        return run_cached(cmd, "%s.%s.pch" % (c.prop, name), dep)
    with ThreadPoolExecutor(JOBS) as ex:
        ft = ex.submit(build_tool, "flow")
        cfg = [(n, fl, f, ex.submit(pch, n, fl)) for n, fl, f in configs]
        for n, fl, f, hp in cfg:
            items = [i for i in P.items if not f or f(i)]
            if not items: raise AnalysisBroken("no probes for " + n)
            h = hp.result()
            for k, sh_ in enumerate(shard(items, shards)):
                txt = P.text(sh_)
                src = put(os.path.join(d, "%s-%s.cpp" % (c.prop, hashlib.sha256(txt.encode()).hexdigest()[:16])), txt)
                def comp(src=src, name="%s.%s.%d" % (c.prop, n, k), f=opt + fl + ["-include-pch", h], again=max(map(reopt, sh_)) if reopt else 0):
                    bc = compile_bc(src, name, f)
                    return reoptimise(bc, name, opt, again) if again else bc
                jobs.append((n, sh_, ex.submit(comp)))
        tool = ft.result()
        def go(j):
            a, sh_, f = j
            return a, sh_, run_tool_json([tool, f.result()])
        for a, sh_, rs in ex.map(go, jobs):
            by = {r["id"]: r for r in rs}
            for it in sh_:
                if it[0] not in by: raise AnalysisBroken("probe %s vanished (%s)" % (it[0], a))
                res.setdefault(a, {})[it[0]] = dict(by[it[0]], group=it[5])
    return res

def report(c, res, describe=lambda i: i, allow_unresolved=0):
    cmp = terms = 0; unres = []
    for a, rs in res.items():
        for pid, r in rs.items():
            terms += r.get("terms", 0); cmp += r.get("cmp", 0)
            if r["status"] == "ok": c.obligation(1)
            elif r["status"] == "bad": c.violation(r["group"] + ":" + pid, "%s [%s]: %s" % (describe(pid), a, r["why"]))
            else: unres.append("%s [%s]: %s %s" % (pid, a, r["status"], r.get("why", "")))
    if len(unres) > allow_unresolved and not c.viol: raise AnalysisBroken("%d probes could not be analysed: %s" % (len(unres), "; ".join(unres[:6])))
    return cmp, terms, unres

"""D04: the shared plan cache: lock discipline, key agreement, ownership of handed-out plans."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from concurrent.futures import ThreadPoolExecutor

PROBE = os.path.join(VERIF, "probes", "cache_probe.cpp")

def public_methods():
    q = 'match cxxMethodDecl(isPublic(), ofClass(hasName("dft_cache_impl")), unless(isImplicit())).bind("m")'
    r = sh(["clang-query-18" if shutil.which("clang-query-18") else "clang-query", "-c", "set output diag", "-c", "set bind-root false", "-c", q, PROBE, "--"] + [f for f in COMMON if not f.startswith("-gline")] + MULTI)
    if "match" not in r.stdout: raise AnalysisBroken("clang-query failed: " + (r.stdout + r.stderr)[-2000:])
    out = set()
    for f, ln, col in re.findall(r'(\S+?):(\d+):(\d+): note: "m" binds here', r.stdout):
        src = open(f).read().split("\n")
        text = " ".join([src[int(ln) - 1][int(col) - 1:]] + src[int(ln):int(ln) + 4])
        m = re.match(r"[^({;=]*?([~\w]+)\s*\(", text)
        if m: out.add(m.group(1))
    return out

def run():
    c = Check("D04", "proof")
    archs = ARCHS if c.tier == "thorough" else ["sse2", "avx2"]
    with ThreadPoolExecutor(JOBS) as ex:
        fq = ex.submit(public_methods)
        ft = ex.submit(build_tool, "cachelock")
        fw = ex.submit(sh, [CLANGXX] + COMMON + MULTI + ["-DD04_WITNESS", "-fsyntax-only", PROBE])
        fb = {a: ex.submit(compile_bc, PROBE, "cache_probe." + a, NOOPT + MULTI + ARCH_FLAGS[a].split()) for a in archs}
        fl = {a: ex.submit(build_bitcode, [t for t in lib_tus([a], ("dft",)) if "convolution" in t[0]]) for a in archs}
        pub = fq.result(); tool = ft.result(); w = fw.result()
        bcs = {a: [fb[a].result()] + list(fl[a].result().values()) for a in archs}
    if not {"get", "getreal", "clear"} <= pub: raise AnalysisBroken("public functions of the plan cache not found: %s" % sorted(pub))
    c.obligation(4)
    fails = re.findall(r"static assertion failed.*?: (get.*)", w.stdout + w.stderr)
    for f in fails: c.violation("type:" + f.split(" ")[0], f)
    if w.returncode and not fails: raise AnalysisBroken("witness does not compile: " + (w.stdout + w.stderr)[-2000:])
    with ThreadPoolExecutor(JOBS) as ex:
        res = {a: ex.submit(run_tool_json, [tool, ",".join(sorted(pub))] + p) for a, p in bcs.items()}
        res = {a: f.result() for a, f in res.items()}
    roots = users = acc = 0
    lock = {}
    for a, rs in res.items():
        for r in rs:
            short = re.sub(r"kfr::(sse2|sse41|avx2|avx512|avx|sse3|ssse3|sse42)::", "kfr::", r["fn"])
            if r["kind"] == "root":
                roots += 1; acc += r["accesses"]; c.obligation(r["accesses"] + r["leaves"] + 1)
                for b in r["bad"]: c.violation("lock:" + short, "%s (%s) %s" % (short, r["loc"], b))
                for b in r["key"]: c.violation("key:" + short, "%s (%s) %s" % (short, r["loc"], b))
                if r["lock"] and not r["bad"]: lock.setdefault(r["lock"].strip(), short)
                n = re.search(r"::get(real)?\((?:\w+::)*(?:ctype_t|cometa::ctype_t|\w+)<(float|double)>", r["fn"])
                if n and r["plan"] and r["plan"] != ("real_" if n.group(1) else "complex_") + n.group(2): c.violation("type:" + short, "%s creates a plan of kind %s" % (short, r["plan"]))
                c.sample("%s: %d accesses under %s; %d returned-plan cases" % (short, r["accesses"], r["lock"], r["leaves"]))
            else:
                users += 1; c.obligation(r["uses"] + 1)
                for b in r["bad"]: c.violation("user:" + short, "%s (%s) %s" % (short, r["loc"], b))
    if len(lock) > 1: c.violation("lock:different", "cache functions use different locks: %s" % lock)
    c.floor("cache functions", roots, 5 * len(archs)); c.floor("accesses", acc, 60 * len(archs)); c.floor("users of the cache", users, 8 * len(archs))
    c.assumptions += ["std::shared_ptr, std::vector and std::mutex behave as the standard says.",
                      "Functions of the cache are reached through its class (its data members are private)."]
    return c.finish("Each public function of the plan cache is flattened (library templates inlined, plan construction and ownership release kept opaque). A must-analysis of held mutexes shows every load, store and call on memory reached "
                    "from the cache object happens under one and the same mutex of that object, which no exit leaves held; each pointer stored to the returned shared_ptr is either constructed with exactly the requested size or comes from the "
                    "edge on which that element's size field equals the requested size; compile-time witnesses fix element type, kind and by-value ownership; each user keeps its ownership past the last use of the plan.",
                    functions=roots, accesses=acc, users=users, archs=archs)
main(run)

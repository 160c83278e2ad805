"""R04: every write to process-wide mutable data must be one-time initialisation, start-up code, atomic, or under a lock."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from concurrent.futures import ThreadPoolExecutor

# documented, explicitly requested configuration change of the process
CONFIG = {"kfr::override_cpu(kfr::cpu_t)": "kfr::internal_generic::cpu_v()::v1"}

def statics(src):
    """Mutable variables with static storage declared in the library's headers and sources, from the type-checked AST (templates included)."""
    q = 'match varDecl(hasGlobalStorage(), unless(isConstexpr()), unless(hasType(isConstQualified())), unless(hasThreadStorageDuration()), unless(isExpansionInSystemHeader())).bind("v")'
    r = sh(["clang-query-18" if shutil.which("clang-query-18") else "clang-query", "-c", "set output diag", "-c", "set bind-root false", "-c", q, src, "--"] + [f for f in COMMON if not f.startswith("-gline")] + MULTI)
    if "matches" not in r.stdout and "match." not in r.stdout: raise AnalysisBroken("clang-query failed: " + (r.stdout + r.stderr)[-2000:])
    out = {}
    L = r.stdout.splitlines()
    for i, l in enumerate(L):
        m = re.match(r'(\S+?):(\d+):\d+: note: "v" binds here', l)
        if not m: continue
        f = os.path.realpath(m.group(1))
        if not f.startswith(os.path.realpath(REPO) + os.sep): continue
        rel = os.path.relpath(f, os.path.realpath(REPO))
        if "/testo/" in rel or "/dr/" in rel: continue
        decl = L[i + 1].split("|", 1)[-1].strip() if i + 1 < len(L) else ""
        nm = re.match(r"(?:[\w:<>,&*\s]|\[\[.*?\]\])*?\b(\w+)\s*(?:\[.*)?(?:=|\{|;|\()", decl)
        out[(rel, int(m.group(2)))] = (nm.group(1) if nm else "", decl[:160])
    return out

def main_():
    c = Check("R04", "proof")
    tool = build_tool("globeff")
    archs = ARCHS if c.tier == "thorough" else ["sse2", "avx512"]
    probe = os.path.join(VERIF, "probes", "api_probe.cpp")
    with ThreadPoolExecutor(JOBS) as ex:
        fp = ex.submit(compile_bc, probe, "api_probe", NOOPT + MULTI)
        fast = ex.submit(statics, probe)
        tus = lib_tus(archs, ("dft", "dsp")) + lib_tus(["sse2"], ("io", "capi"))
        bcs = build_bitcode(tus)
        pb = fp.result(); decls = fast.result()
    runs = {}
    for a in archs:
        runs[a] = [p for n, p in bcs.items() if n.endswith("." + a)]
    runs["sse2"] += [p for n, p in bcs.items() if n.startswith(("io.", "capi."))] + [pb]
    with ThreadPoolExecutor(JOBS) as ex:
        res = {a: f for a, f in [(a, ex.submit(run_tool_json, [tool] + ps)) for a, ps in runs.items()]}
        res = {a: f.result() for a, f in res.items()}
    names, total = set(), 0
    for a, rs in res.items():
        for r in rs:
            if r["kind"] == "global":
                total += 1; c.obligation(max(1, r["owners"])); names.add(re.sub(r"(\.\d+| \(\.\d+\))$", "", r["name"]))
            elif r["kind"] == "write":
                if CONFIG.get(r["fn"]) == r["global"]: continue
                c.violation("%s:%s" % (r["fn"].split("(")[0], re.sub(r" \(\.\d+\)$", "", r["global"])),
                            "%s (%s) writes the process-wide variable %s (%s) outside one-time initialisation and without a lock" % (r["fn"], r["loc"], r["global"], r["how"]))
            elif r["kind"] == "libc":
                c.violation("libc:%s:%s" % (r["callee"], r["fn"]), "%s (%s) calls %s, which keeps unsynchronised process-wide state" % (r["fn"], r["loc"], r["callee"]))
    st = [r for rs in res.values() for r in rs if r["kind"] == "stats"]
    c.floor("process-wide mutable variables", total, 8)
    c.floor("functions analysed", sum(s["functions"] for s in st), 8000)
    if not any("dft_cache_impl" in n for n in names): raise AnalysisBroken("the plan cache instance was not found in the analysed code")
    c.floor("mutable static declarations in the AST", len(decls), 4)
    for (f, line), (nm, decl) in sorted(decls.items()):
        c.obligation()
        if nm and any(re.search(r"(^|::|\b)%s$" % re.escape(nm), n) for n in names): continue
        c.violation("static:%s:%s" % (f, nm), "%s:%d declares mutable process-wide data (%s) in code whose writes cannot be bounded" % (f, line, decl))
    c.sample([r for rs in res.values() for r in rs if r["kind"] == "global"][:8])
    c.assumptions += ["Functions of libc and libstdc++ not on the list of stateful ones are thread safe for distinct objects.",
                      "Pointers loaded out of a protected object and handed to callers (shared plans) are the subject of D01 and D04."]
    return c.finish("Every non-constant, non-thread-local global of the linked library IR (plus a probe instantiating the header-only API) is followed forward through loads, calls, returns and fields; every store reaching it must be "
                    "in a static-initialisation guard, in start-up-only code, atomic, or dominated by a held mutex. The AST lists all mutable static declarations, so none escapes the IR analysis.",
                    globals=total, functions=sum(s["functions"] for s in st), ast_statics=len(decls))
main(main_)

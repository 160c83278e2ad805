"""R02: specialise detect_cpu for the absence of each required feature and list the levels it can still return."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

# CPUID/XCR0 bits that the instruction sets named by the build flags depend on (Intel SDM vol. 2, CPUID)
FEATURE = {
    "sse3": ["bit:1:ecx:0"], "ssse3": ["bit:1:ecx:9"], "sse4.1": ["bit:1:ecx:19"], "sse4.2": ["bit:1:ecx:20"],
    "avx": ["bit:1:ecx:28", "bit:1:ecx:27", "xcr0:1", "xcr0:2"],      # AVX, OSXSAVE, XMM and YMM state
    "fma": ["bit:1:ecx:12"], "avx2": ["bit:7:ebx:5", "max:0:6"],
    "avx512f": ["bit:7:ebx:16", "xcr0:5", "xcr0:6", "xcr0:7"], "avx512dq": ["bit:7:ebx:17"], "avx512cd": ["bit:7:ebx:28"],
    "avx512bw": ["bit:7:ebx:30"], "avx512vl": ["bit:7:ebx:31"],
}


# (SSE2 is part of x86-64 and is the floor level)
LEVELS = {"sse3": 2, "ssse3": 3, "sse41": 4, "sse42": 5, "avx": 6, "avx2": 7, "avx512": 8}
# extensions named by the flags each level's code is built with; the architecture guarantees the implied older ones
# together with the newer ones (a processor reporting AVX2 reports SSE4.2), so only the leading ones are required.
OWN = {"sse3": ["sse3"], "ssse3": ["ssse3"], "sse41": ["sse4.1"], "sse42": ["sse4.2"], "avx": ["avx"]}


def main_():
    c = Check("R02", "proof")
    tool = build_tool("cpudet")
    bc = compile_bc(os.path.join(VERIF, "probes", "cpu_detect.cpp"), "cpu_detect", NOOPT + MULTI)
    req = {}
    for lv in LEVELS:
        ext = OWN.get(lv) or [e for e in re.findall(r"-m(?!no-)([\w.]+)", ARCH_FLAGS[lv]) if e != "sse4.2"] + ["avx"]
        req[lv] = sorted({b for e in ext for b in FEATURE[e]})
        if lv in ("avx2", "avx512") and "max:0:6" not in req[lv]: req[lv].append("max:0:6")
    assumptions = ["none"] + sorted({b for r in req.values() for b in r})
    res = run_tool_json([tool, bc] + assumptions)
    cases = {r["assume"]: r for r in res if r["kind"] == "case"}
    base = cases["none"]
    if not base["resolved"]: raise AnalysisBroken("detect_cpu's return value is not a finite set of levels")
    if base["unknownLeaf"]: raise AnalysisBroken("detect_cpu executes cpuid with a leaf that is not a constant")
    c.floor("CPUID queries", base["cpuids"], 3)
    c.floor("reportable levels", len(base["levels"]), 6)
    for lv, n in LEVELS.items():
        if n not in base["levels"]: continue
        for a in req[lv]:
            k = cases[a]; c.obligation()
            if k["sites"] == 0:
                c.violation("%s:%s" % (lv, a), "detect_cpu never reads %s, which code built for %s requires" % (a, lv)); continue
            if not k["resolved"]: raise AnalysisBroken("return value not resolved under " + a)
            # levels are tried from the highest: reporting this level or any level that licenses the same code
            bad = [x for x in k["levels"] if x == n]
            if bad: c.violation("%s:%s" % (lv, a), "detect_cpu (include/kfr/runtime/cpuid.hpp) can report %s although %s does not hold; code for this level is built with %s"
                                % (lv, a, ARCH_FLAGS.get(lv, "-m" + OWN.get(lv, ["?"])[0])))
    getters = [r for r in res if r["kind"] == "getter"]; stores = [r for r in res if r["kind"] == "store"]
    c.obligation(2)
    if not getters or not all(g["cell"] for g in getters): c.violation("getter", "get_cpu() does not return the stored detection result")
    if not any(s["source"] == "detect" and s["startup"] for s in stores): c.violation("init", "no start-up code stores the detection result in the level variable get_cpu() reads")
    for s in stores:
        c.obligation()
        if s["source"] == "other": c.violation("store:" + s["fn"], "%s (%s) stores a level that is not the detection result" % (s["fn"], s["loc"]))
    c.sample(res[:6])
    c.assumptions.append("CPUID feature semantics as documented by Intel; a processor reporting a newer SSE level also reports the older ones.")
    return c.finish("detect_cpu is specialised once per required feature (that CPUID or XCR0 bit forced to 0, every other input unknown) and constant propagation must "
                    "remove every return of a level whose code is compiled with that feature; stores to the level variable must come from detect_cpu or override_cpu's argument.",
                    assumptions_tried=len(assumptions), levels=base["levels"], required=req)
main(main_)

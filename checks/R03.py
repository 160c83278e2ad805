"""R03: per-object symbol and start-up-code query on the optimised IR of every object of the five-architecture build."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from concurrent.futures import ThreadPoolExecutor

DM = {}
def named(sym, arch):
    # some component of the symbol lies in this instruction set's namespace
    return "kfr::%s::" % arch in DM.get(sym, sym)

def main_():
    c = Check("R03", "proof")
    tus = lib_tus(parts=("dft", "dsp", "io"))
    bcs = build_bitcode(tus, opt=["-O3"])      # the configuration the objects are built with
    tool = build_tool("weaksyms")
    empty = os.path.join(VERIF, "probes", "empty.cpp")
    ref = {a: compile_bc(empty, "empty." + a, ["-O3"] + ARCH_FLAGS[a].split()) for a in ARCHS}
    with ThreadPoolExecutor(JOBS) as ex:
        res = sum(ex.map(lambda kv: run_tool_json([tool, "%s=%s" % kv]), list(bcs.items()) + [("ref." + a, p) for a, p in ref.items()]), [])
    level = lambda tu: tu.split(".")[-1] if tu.split(".")[-1] in ARCHS else "sse2"
    allowed = {}
    for r in res:
        if r["kind"] == "features" and r["tu"].startswith("ref."): allowed[level(r["tu"])] = set(r["features"].split(","))
    on = lambda s: {f for f in s if f.startswith("+")}
    base = {r["sym"] for r in res if r["kind"] == "sym" and level(r["tu"]) == "sse2" and not r["tu"].startswith(("ref.", "io."))}
    weak = [r for r in res if r["kind"] == "sym" and level(r["tu"]) != "sse2" and not r["tu"].startswith("ref.")]
    c.floor("linkable symbols in non-baseline objects", len(weak), 5000)
    c.floor("baseline symbols", len(base), 2000)
    DM.update(demangle({r["sym"] for r in weak}))
    neutral = 0
    for r in weak:
        c.obligation(); a = level(r["tu"])
        if named(r["sym"], a): continue
        neutral += 1
        if r["sym"] in base: continue
        c.violation("sym:" + r["sym"], "%s%s, compiled for %s in %s, is not specific to that instruction set by name and no baseline object provides it: the linker may use this copy for lower-level code"
                    % (DM[r["sym"]][:300], " (%s)" % r["loc"] if r["loc"] else "", a, r["tu"]))
    for r in res:
        if r["kind"] == "features" and not r["tu"].startswith("ref."):
            c.obligation(); a = level(r["tu"])
            extra = on(r["features"].split(",")) - allowed[a]
            if extra: c.violation("features:" + r["tu"] + ":" + r["sym"], "%s (%s) in %s is compiled with %s beyond the flags of %s" % (r["sym"], r["loc"], r["tu"], ",".join(sorted(extra)), a))
        if r["kind"] == "startup" and level(r["tu"]) != "sse2" and not r["tu"].startswith("ref."):
            # functions the baseline provides resolve to the baseline copy
            if not r["local"] and r["sym"] in base and not named(r["sym"], level(r["tu"])): continue
            c.violation("startup:%s:%s" % (r["tu"], r["sym"]), "start-up code %s (%s) of %s, which runs on every CPU, contains vector or floating-point code (%s) compiled for %s"
                        % (r["sym"], r["loc"], r["tu"], r["op"], level(r["tu"])))
        if r["kind"] == "stats": c.obligation(r["startup"])
    c.sample([r for r in weak if not named(r["sym"], level(r["tu"]))][:4])
    c.assumptions.append("The baseline library is linked first and completely (cmake/link_as_whole.cmake).")
    return c.finish("Every externally visible definition in the optimised IR of each non-baseline object either carries that object's own instruction-set namespace in its mangled name or is also defined by a "
                    "baseline object; no function is compiled with features beyond its object's flags; start-up code of non-baseline objects has no vector or floating-point operations.",
                    objects=len(bcs), symbols=len(weak), arch_neutral_symbols=neutral)
main(main_)

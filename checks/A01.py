"""A01: exception-flow analysis: no exported C function unwinds; no reachable no-throw scope contains a throw."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run():
    c = Check("A01", "proof")
    archs = ARCHS if c.tier == "thorough" else ["sse2"]
    tool = build_tool("excflow")
    bc = build_bitcode(lib_tus(archs))
    res = run_tool_json([tool] + list(bc.values()))
    entries = [r for r in res if r["kind"] == "entry"]
    summ = [r for r in res if r["kind"] == "summary"][0]
    c.floor("exported C functions", len(entries), 60)
    c.floor("functions that may unwind (positive control: the library does contain throw sites)", summ["mayunwind"], 200)
    for e in entries:
        c.obligation()
        if e["reach"] > 20: c.sample("%s (%s): %d reachable functions, %d call sites" % (e["fn"], e["loc"], e["reach"], e["callsites"]))
        if e["bad"]: c.violation("unwind:" + e["fn"], "exported C function lets an exception escape: " + e["chain"])
    c.obligation(summ["examined"])
    for t in [r for r in res if r["kind"] == "terminate"]:
        c.violation("terminate:" + t["fn"], "%s (%s): an exception raised in a scope promised not to throw terminates the process: %s" % (t["dem"], t["loc"], t["why"]))
    return c.finish("Interprocedural exception-flow fixpoint over the linked, unoptimised IR of the C API and the library (%s). "
                    "A function may unwind iff some live call, invoke or resume lets an exception out; an indirect call may always throw. "
                    "Each exported function must not unwind; each function reachable from them (calls, vtables, referenced addresses) is searched "
                    "for a live path from a throwing call into a terminate handler." % ", ".join(archs),
                    units=sorted(bc), functions=summ["functions"], reachable=summ["reachable"], functions_examined=summ["examined"],
                    may_unwind=summ["mayunwind"], entry_points=len(entries))
main(run)

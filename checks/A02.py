"""A02: failure reporting discipline of the C API."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run():
    c = Check("A02", "proof")
    tool = build_tool("capierr")
    bc = build_bitcode(lib_tus([], parts=("capi",)))
    res = run_tool_json([tool] + list(bc.values()))
    slots = [r for r in res if r["kind"] == "slot"]
    if not slots: raise AnalysisBroken("kfr_last_error returns nothing recognisable")
    for s in slots:
        c.obligation()
        if not s["ok"]: c.violation("slot", "kfr_last_error: " + s["why"])
    for h in [r for r in res if r["kind"] == "helper"]:
        c.obligation()
        if h["unterminated"]: c.violation("helper:" + h["fn"], "%s (%s): the stored message may fill the whole buffer without a terminator %s" % (h["fn"], h["loc"], h["where"]))
    fns = [r for r in res if r["kind"] == "fn"]
    if all(s["ok"] for s in slots):
        c.floor("C API plan/filter functions", len(fns), 50)
        c.floor("functions with a failure path", sum(1 for f in fns if f["pads"]), 40)
        for f in fns:
            c.obligation(3)
            for b in sorted(set(f["bad"])): c.violation("path:%s:%s" % (f["fn"], b.split(":")[0]), "%s (%s): %s" % (f["fn"], f["loc"], b))
            c.sample("%s: returns %s, %d landing pads, %d calls" % (f["fn"], f["ret"], f["pads"], f["calls"]))
    return c.finish("Path-sensitive dataflow over the IR of each exported plan/filter function (everything inlined except the helpers that touch the error slot): on every path that passes a "
                    "landing pad the slot is set to non-empty text and the result is null/0; on every other path it is cleared; the slot is thread-local, returned from its start, and never filled without a terminator.",
                    functions=len(fns), slot=slots[0].get("name"), helpers=[r["fn"] for r in res if r["kind"] == "helper"])
main(run)

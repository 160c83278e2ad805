"""D05: every execute overload runs exactly the transform its direction argument names, on the caller's buffers."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from planrun import *

def run():
    c = Check("D05", "proof")
    res, units = run_planeff(["sse2"])
    d = [r for r in res["sse2"] if r["kind"] == "d05"]
    c.floor("execute overload walks", len(d), 200)
    n = 0
    for r in d:
        kind, direction = r["fn"].split("_")[1:3]
        T = "float" if r["fn"].endswith("f32") else "double"
        md = kind.startswith("md")
        if kind == "dct": continue
        if not r["nonnull"] and md: continue         # runs the same body through a bound pointer once scratch exists
        n += 1; c.obligation()
        want = T + (" forward" if direction == "fwd" else " inverse")
        who = "%s (%s scratch)" % (r["fn"], "given" if r["nonnull"] else "null")
        for x in r["runs"]:
            if x != want: c.violation("%s:dir" % r["fn"], "%s runs a %s transform where a %s one was requested (%s)" % (who, x, want, r["loc"]))
        if not r["runs"]: c.violation("%s:none" % r["fn"], "%s runs no transform (%s)" % (who, r["loc"]))
        if r["throws"] and "tensor" not in r["fn"]:
            c.violation("%s:throw" % r["fn"], "%s rejects a direction that matches its buffers: throws at %s" % (who, ", ".join(r["throws"])))
        for a in r["args"]:
            p, o, i, t = a.split(",")
            if p != "0": c.violation("%s:plan" % r["fn"], "%s does not execute the given plan" % who)
            if md: continue
            if (o, i) != ("1", "2"): c.violation("%s:buf" % r["fn"], "%s hands buffers derived from arguments (%s, %s) to the transform, expected output then input (1, 2)" % (who, o, i))
            if t != "3": c.violation("%s:scr" % r["fn"], "%s does not pass the caller's scratch" % who)
        c.sample("%s -> %s args %s" % (who, r["runs"], r["args"]))
    return c.finish("Each public execute overload (complex, real, multidimensional; pointer, univector, tensor; run-time flag and compile-time tag) is wrapped with constant direction arguments; after inlining and constant folding the set of "
                    "dft_execute<T, inverse> calls reachable must be exactly the requested direction and element type, no throw may be reachable for a direction that matches the buffers, and the plan, output, input and scratch operands must derive from the corresponding arguments.",
                    overload_walks=n, units=units)
main(run)

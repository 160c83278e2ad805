"""F02: reset() of the FIR, IIR and convolution filters restores everything processing changes."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from concurrent.futures import ThreadPoolExecutor

def run():
    c = Check("F02", "proof")
    archs = ["sse2", "avx2", "avx512"] if c.tier == "thorough" else ["sse2"]
    names = ("convolution-impl", "fir", "biquad")
    with ThreadPoolExecutor(JOBS) as ex:
        ft = ex.submit(build_tool, "resetstate")
        fb = {a: ex.submit(build_bitcode, [t for t in lib_tus([a], ("dft", "dsp")) if any(n in t[0] for n in names)]) for a in archs}
        tool = ft.result(); bcs = {a: list(f.result().values()) for a, f in fb.items()}
        res = {a: [ex.submit(run_tool_json, [tool, b]) for b in p] for a, p in bcs.items()}
        res = {a: [r for f in fs for r in f.result()] for a, fs in res.items()}
    nc = {}; acc = st = 0
    for a, rs in res.items():
        for r in rs:
            cls = re.sub(r"kfr::(\w+::)*", "", r["class"])
            nc[cls.split("<")[0]] = nc.get(cls.split("<")[0], 0) + 1
            acc += r["accesses"]; st += len(r["state"]); c.obligation(len(r["state"]) + len(r["scratch"]) + len(r["ctors"]))
            for b in r["bad"]: c.violation("reset:%s:%s" % (cls, re.sub(r"[^+\w].*", "", b.replace(" ", "_"))), "%s: %s" % (r["class"], b))
            c.sample("%s: state %s; scratch %s" % (r["class"], r["state"], r["scratch"]))
    for k, n in (("fir_filter", 6), ("iir_filter", 2), ("convolve_filter", 4)): c.floor(k + " instances", nc.get(k, 0), n * len(archs))
    c.floor("accesses", acc, 300 * len(archs))
    return c.finish("For each filter class (found by its vtable) process_buffer, process_expression, reset and the constructors are flattened. An access analysis finds every member, and every buffer reached through a member, that processing may change and, over every sequence of calls after a reset, "
                    "may read before rewriting; each such piece of state must be restored by reset on every path: members to the constant the constructor gives them, buffers by zero stores proved to start at the beginning, tile the stride, reach the end and not depend on the data, or by rebuilding the object as the constructor does.", classes=nc, accesses=acc, state_keys=st)
main(run)

"""D03: allocation reachability with caller scratch; null-scratch handling."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from planrun import *

def run():
    c = Check("D03", "proof")
    res, units = run_planeff(ARCHS)
    calls = obt = noalloc = null = 0
    for a, rs in res.items():
        d = [r for r in rs if r["kind"] == "d03"]
        c.floor("execution roots (%s)" % a, len(d), 200)
        for r in d:
            kind = r["fn"].split("_")[1] if r["role"] == "exec" else "stage"
            calls += r["calls"]; obt += r["obtained"]
            if not kind.startswith("md") and not r["uv"]:
                c.obligation(); noalloc += 1
                for x in r["allocs"]:
                    c.violation("%s:%s:alloc" % (a, r["fn"]), "%s [%s] allocates although scratch is supplied: %s" % (r["dem"], a, x))
            if r["role"] == "exec" and not r["uv"]:
                c.obligation(); null += 1
                for x in r["nulluse"]:
                    c.violation("%s:%s:null" % (a, r["fn"]), "%s [%s]: %s" % (r["dem"], a, x))
        c.floor("overloads that obtain their own scratch (%s)" % a, sum(1 for r in d if r["obtained"]), 60)
    return c.finish("Two walks over the linked library IR per instruction set. (1) With the scratch argument non-null, branches on it are folded and every allocation function reachable through calls and virtual calls "
                    "on a normally completing path is reported (complex, real and cosine plans and every stage; multidimensional plans transpose through work memory and are outside this part). (2) With the scratch argument null and the plan's temp_size positive, no address may be formed from the "
                    "null pointer and it may not reach an indirect call; the scratch obtained instead must be sized by temp_size (heap: temp_size plus a constant; stack: array at least as large as the branch bound) and released on every way out.",
                    no_allocation_roots=noalloc, null_scratch_roots=null, call_sites=calls, scratch_obtained=obt, units=units)
main(run)

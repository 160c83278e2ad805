"""D01: interprocedural write-effect analysis of every execution stage and every execute overload."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from planrun import *

def run():
    c = Check("D01", "proof")
    res, units = run_planeff(ARCHS)
    nst = nex = 0; fns = {}
    for a, rs in res.items():
        stages = [r for r in rs if r["kind"] == "root" and r["role"] == "stage"]
        execs = [r for r in rs if r["kind"] == "root" and r["role"] == "exec"]
        copies = [r for r in rs if r["kind"] == "root" and r["role"] == "copy"]
        c.floor("execution stages (%s)" % a, len(stages), 100)
        c.floor("execute overloads (%s)" % a, len(execs), 100)
        c.floor("copy stages (%s)" % a, len(copies), 2)
        fns[a] = [r for r in rs if r["kind"] == "stats"][0]["functions"]
        nst += len(stages); nex += len(execs)
        # positive control: the analysis sees the stages write their output
        c.floor("stages seen to write their output (%s)" % a, sum(any(w["arg"] == 1 and w["depth"] == 0 for w in r["writes"]) for r in stages), len(stages) * 9 // 10)
        for r in stages + execs + copies:
            c.obligation()
            role = r["role"]
            for w in r["writes"]:
                if role == "copy": ok = w["arg"] == 2 and w["depth"] == 0      # (this, inverse, out, in, size)
                else:
                    ok = w["arg"] in (1, 3) and w["depth"] == 0
                    if role == "exec" and w["arg"] in (1, 3) and w["depth"] == 1 and any(k in r["fn"] for k in ("_uv", "_tensor")): ok = True   # data pointer of the container
                if role == "exec" and "_uv" in r["fn"] and w["depth"] == 0: ok = False if "uvptr" not in r["fn"] or w["arg"] != 3 else ok
                if ok: continue
                what = {0: "the plan object or memory it owns", 2: "the input buffer"}.get(w["arg"], "process-wide data" if w["global"] else "memory that is neither output nor scratch")
                c.violation("%s:%s:%s" % (a, r["dem"], w["ref"]), "%s [%s, %s] writes %s (%s) at %s" % (r["dem"], a, r["loc"], what, w["ref"], w["loc"]))
            if r["externals"]:
                c.violation("%s:%s:ext" % (a, r["dem"]), "%s [%s] reaches code whose effects are unknown: %s" % (r["dem"], a, ", ".join(r["externals"][:4])))
        if stages: c.sample("%s: %s writes only %s" % (a, stages[-1]["dem"], sorted({w["ref"] for w in stages[-1]["writes"]})))
    return c.finish("Interprocedural, field-sensitive access-path analysis (flow-insensitive over SSA, summaries to a fixpoint) of the linked library IR, once per instruction set. "
                    "For every virtual do_execute of every stage and for every public execute overload of every plan kind (complex, real, multidimensional, DCT; pointer, univector and tensor forms) the set of objects "
                    "that any normally completing path may write is computed, and must be the output buffer, the scratch buffer or memory private to the call. Virtual calls resolve to every same-slot same-type vtable entry. "
                    "Atomic statistics counters and guard-protected one-time initialisation are synchronised and therefore not counted.",
                    stages=nst, execute_overloads=nex, functions_analysed=fns, units=units)
main(run)

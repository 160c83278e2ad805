"""Shared by D01, D03, D05: run the plan-execution analyzer for each instruction set."""
from vlib import *

def run_planeff(archs):
    tool = build_tool("planeff")
    allt = lib_tus(ARCHS, parts=("dft",))
    tus = [t for t in allt if t[0].split(".")[-1] in archs or t[0] == "dft.dft.sse2"]
    bc = build_bitcode(tus)
    px = compile_bc(os.path.join(VERIF, "probes", "plan_exec.cpp"), "plan_exec", NOOPT + MULTI)
    def one(a):
        files = [p for n, p in bc.items() if n.split(".")[-1] == a or n == "dft.dft.sse2"]
        return a, run_tool_json([tool, a] + files + [px])
    with ThreadPoolExecutor(5) as ex:
        return dict(ex.map(one, archs)), sorted(bc)

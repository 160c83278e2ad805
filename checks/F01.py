"""F01: biquad cascades against the cascaded second-order difference equations, for every enumerated partition into blocks (value-flow comparison)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from filtops import *

G = ["-DCMT_DISABLE_CLANG_EXT"]

def run():
    c = Check("F01", "proof"); th = c.tier == "thorough"; P = gen_iir(th)
    A = lambda a: ARCH_FLAGS[a].split()
    cfg = [(a, A(a), None) for a in ("sse2", "sse41", "avx", "avx2", "avx512")] + [(a + ".portable", A(a) + G, None) for a in (("sse2", "sse41", "avx", "avx2", "avx512") if th else ("sse2",))]
    res = run_configs(c, P, cfg, shards=16, opt=MYOPT, reopt=REOPT)
    cmp, terms, _ = report(c, res)
    c.floor("probes", sum(len(r) for r in res.values()), 2800)
    for a, r in res.items():
        k = sorted(r)[len(r) // 2]; c.sample("%s: %s: %d output samples equal to the difference equation" % (a, k, r[k]["cmp"]))
    return c.finish("A cascade with symbolic coefficients is applied to a symbolic signal cut into a constant sequence of blocks, carrying one state object; the optimised value flow of every output sample must be the same expression (sums reassociated, products commuted) as the scalar cascade of transposed second-order sections over the uncut signal.", probes=sum(len(r) for r in res.values()), elements_compared=cmp, terms=terms, configurations=sorted(res))

main(run)

"""F03: FIR filters, moving sums and delays against their defining sums, for every enumerated partition into blocks (value-flow comparison)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from filtops import *

G = ["-DCMT_DISABLE_CLANG_EXT"]

def run():
    c = Check("F03", "proof"); th = c.tier == "thorough"; P = gen_fir(th)
    A = lambda a: ARCH_FLAGS[a].split()
    # the quick tier repeats only the odd-numbered probes on the builds with the vector widths of sse2 and avx2
    half = {i[0] for i in P.items[1::2]}
    cfg = [(a, A(a), None if th or a not in ("sse41", "avx") else lambda i: i[0] in half) for a in ("sse2", "sse41", "avx", "avx2", "avx512")] + [(a + ".portable", A(a) + G, None if th else lambda i: i[0] in half) for a in (("sse2", "sse41", "avx", "avx2", "avx512") if th else ("sse2",))]
    res = run_configs(c, P, cfg, shards=20, opt=MYOPT, reopt=REOPT)
    cmp, terms, _ = report(c, res)
    c.floor("probes", sum(len(r) for r in res.values()), 9000)
    for a, r in res.items():
        k = sorted(r)[len(r) // 2]; c.sample("%s: %s: %d output samples equal to the definition" % (a, k, r[k]["cmp"]))
    return c.finish("Each filter, with symbolic coefficients and one state object, is applied to a symbolic signal cut into a constant sequence of blocks or read in pieces of a constant width; the optimised value flow of every output sample must equal the defining sum of products of coefficients with the current and earlier samples (or the delayed sample).", probes=sum(len(r) for r in res.values()), elements_compared=cmp, terms=terms, configurations=sorted(res), filters=sorted({i[5] for i in P.items}))

main(run)

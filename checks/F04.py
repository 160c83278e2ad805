"""F04: biquad designers against the bilinear transform of their analog prototypes (value-flow comparison of rational functions)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from designops import *

G = ["-DCMT_DISABLE_CLANG_EXT"]

def run():
    c = Check("F04", "proof"); P = generate(c.tier == "thorough")
    A = lambda a: ARCH_FLAGS[a].split()
    cfg = [(a, A(a), None) for a in ("sse2", "sse41", "avx", "avx2", "avx512")] + [("sse2.portable", A("sse2") + G, None)]
    res = run_configs(c, P, cfg, shards=1, opt=MYOPT)
    cmp, terms, _ = report(c, res)
    c.floor("probes", sum(len(r) for r in res.values()), 96)
    for a, r in res.items():
        k = sorted(r)[len(r) // 2]; c.sample("%s: %s: %d coefficients equal to the bilinear transform" % (a, k, r[k]["cmp"]))
    return c.finish("Every designer is called with symbolic parameters; each coefficient, as a rational function of tan(pi f), Q and the amplitude over all branches of the gain, must equal the bilinear transform of the analog prototype normalised to a leading denominator coefficient of one.", probes=sum(len(r) for r in res.values()), elements_compared=cmp, terms=terms, configurations=sorted(res))

main(run)

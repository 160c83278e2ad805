"""S04: horizontal reductions fold every lane exactly once (value-flow comparison of every probe with its scalar definition)."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hops import *

G = ["-DCMT_DISABLE_CLANG_EXT"]     # portable back end (used with GCC and MSVC)

def run():
    c = Check("S04", "proof"); P = generate(); th = c.tier == "thorough"
    A = lambda a: ARCH_FLAGS[a].split()
    archs = ("sse2", "sse41", "avx", "avx2", "avx512")
    cfg = [(a, A(a), None) for a in archs] + [(a + ".portable", A(a) + G, lambda i: not re.match(r"M_hm(in|ax)_[iu]64_(5|9|12|17)$", i[0])) for a in (archs if th else ("sse2", "avx2"))]
    res = run_configs(c, P, cfg, shards=8, opt=MYOPT)
    cmp, terms, _ = report(c, res)
    c.floor("probes", sum(len(r) for r in res.values()), 9000)
    for a, r in res.items():
        k = sorted(r)[len(r) // 2]; c.sample("%s: %s: %d elements equal to the definition" % (a, k, r[k]["cmp"]))
    return c.finish("Every horizontal reduction is instantiated for every element type and a grid of lengths including lengths that are not powers of two; the optimised IR of each instance is reduced to one term (a multiset of lanes for sums and products, a set for minima and maxima) which must be the left-to-right scalar fold over all lanes.", probes=sum(len(r) for r in res.values()), elements_compared=cmp, terms=terms, configurations=sorted(res), operations=len({i[5] for i in P.items}))

main(run)

"""S02: lane-wise operations act as scalar C++ in every lane (value-flow comparison of every probe with its per-lane definition)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from laneops import *

G = ["-DCMT_DISABLE_CLANG_EXT"]     # portable back end (used with GCC and MSVC)

def run():
    c = Check("S02", "proof"); P = generate(); th = c.tier == "thorough"
    A = lambda a: ARCH_FLAGS[a].split()
    # quick: for every operation and type the lengths that fill one register, and a rotating other one
    lens = {}
    for i in P.items: lens.setdefault(i[0].rsplit("_", 1)[0], []).append(int(i[0].rsplit("_", 1)[1]))
    def sel(a, n):
        if th: return None
        def f(i):
            o, k = i[0].rsplit("_", 1); T = o.split("_")[2 if "_conv_" in o else -1]; l = lens[o]; full = WIDTH[a] * 8 // int(T[1:])
            return int(k) == full or int(k) == l[(n + len(o)) % len(l)]
        return f
    cfg = [(a, A(a), None if a in ("sse2", "avx2", "avx512") else sel(a, n)) for n, a in enumerate(("sse2", "avx2", "avx512", "sse41", "avx"))]
    cfg += [(a + ".portable", A(a) + G, sel(a, n + 3)) for n, a in enumerate(("sse2", "sse41", "avx", "avx2", "avx512"))]
    res = run_configs(c, P, cfg, shards=24, opt=MYOPT)
    cmp, terms, _ = report(c, res)
    c.floor("lane operation probes", sum(len(r) for r in res.values()), 30000)
    for a, r in res.items():
        k = sorted(r)[len(r) // 2]; c.sample("%s: %s: %d elements equal to the definition" % (a, k, r[k]["cmp"]))
    return c.finish("Every operator, comparison, mask operation, selection, min/max, absolute value, clamp, saturating and conversion operation is instantiated for a grid of element "
                    "types, lengths and instruction sets (native and portable back end); the optimised IR of each instance is reduced by value numbering over lanes and bits to one "
                    "term per output element, which must be the term of the scalar definition.", probes=sum(len(r) for r in res.values()), elements_compared=cmp, terms=terms, configurations=sorted(res), operations=len({i[5] for i in P.items}))

main(run)

"""S01: lane rearrangements move exactly the documented lanes (value-flow comparison of every probe with its lane list)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from lanes import *

G = ["-DCMT_DISABLE_CLANG_EXT"]     # portable back end (used with GCC and MSVC)
LIGHT = ("_f32_", "_f64_", "_i32_", "_i16_", "_c64_")

def run():
    c = Check("S01", "proof"); P = generate(); th = c.tier == "thorough"
    light = lambda i: any(t in i[0] for t in LIGHT) and not re.search(r"_(24|32|64)(x|to)|to(64|96|128)$", i[0]) or "special" in i[0] or "idx_" in i[0]
    few = lambda i: "special" in i[0] or "perm" in i[0] or "_f32_" in i[0] and light(i)
    A = lambda a: ARCH_FLAGS[a].split()
    cfg = [("sse2", A("sse2"), None), ("avx2", A("avx2"), None if th else light), ("avx512", A("avx512"), None), ("sse41", A("sse41"), None if th else few), ("avx", A("avx"), None if th else few)]
    cfg += [(a + ".portable", A(a) + G, None if th else light) for a in ("sse2", "avx2", "avx512")]
    if th: cfg += [(a + ".portable", A(a) + G, None) for a in ("sse41", "avx")]
    res = run_configs(c, P, cfg, shards=24)
    cmp, terms, _ = report(c, res)
    c.floor("rearrangement probes", sum(len(r) for r in res.values()), 15000)
    for a, r in res.items():
        k = sorted(r)[len(r) // 2]; c.sample("%s: %s: %d elements equal to the definition" % (a, k, r[k]["cmp"]))
    return c.finish("Every rearrangement is instantiated for a grid of element types, lengths and instruction sets (native and portable back end); "
                    "the optimised IR of each instance is reduced by value numbering over lanes and bytes to one term per output element, which must be "
                    "the input element its definition names.", probes=sum(len(r) for r in res.values()), elements_compared=cmp, terms=terms, configurations=sorted(res), operations=len({i[5] for i in P.items}))

main(run)

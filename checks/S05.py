"""S05: vector loads and stores touch exactly the requested elements (value-flow and access-set comparison of every probe)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from memops import *

G = ["-DCMT_DISABLE_CLANG_EXT"]     # portable back end (used with GCC and MSVC)

def run():
    c = Check("S05", "proof"); P = generate(); th = c.tier == "thorough"
    light = lambda i: any(t in i[0] for t in ("_f32_", "_f64_", "_i16_", "_u8_", "_c64_"))
    A = lambda a: ARCH_FLAGS[a].split() + FLAGS
    cfg = [(a, A(a), None) for a in ("sse2", "avx2", "avx512")] + [(a, A(a), None if th else light) for a in ("sse41", "avx")]
    cfg += [(a + ".portable", A(a) + G, None if th else light) for a in ("sse2", "avx", "avx512")]
    if th: cfg += [(a + ".portable", A(a) + G, None) for a in ("sse41", "avx2")]
    res = run_configs(c, P, cfg, shards=24)
    cmp, terms, _ = report(c, res)
    c.floor("memory access probes", sum(len(r) for r in res.values()), 20000)
    for a, r in res.items():
        k = sorted(r)[len(r) // 2]; c.sample("%s: %s: %d elements and accesses equal to the definition" % (a, k, r[k]["cmp"]))
    return c.finish("Every access form is instantiated for a grid of element types, lengths, group sizes and instruction sets (native and portable back end); the "
                    "optimised IR of each instance must leave exactly the element values its scalar definition leaves, write no other byte, read no byte the "
                    "definition does not read, and assume no alignment an unaligned access does not give.", probes=sum(len(r) for r in res.values()),
                    elements_compared=cmp, terms=terms, configurations=sorted(res), operations=len({i[5] for i in P.items}))

main(run)

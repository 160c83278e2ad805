"""I02: sample format conversions scale, clamp to full scale and truncate (value-flow comparison)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from convops import *

G = ["-DCMT_DISABLE_CLANG_EXT"]

def run():
    c = Check("I02", "proof"); P = generate(c.tier == "thorough")
    A = lambda a: ARCH_FLAGS[a].split()
    cfg = [(a, A(a), None) for a in ("sse2", "sse41", "avx", "avx2", "avx512")] + [("sse2.portable", A("sse2") + G, None)]
    res = run_configs(c, P, cfg, shards=4, opt=MYOPT)
    cmp, terms, _ = report(c, res)
    c.floor("probes", sum(len(r) for r in res.values()), 3500)
    for a, r in res.items():
        k = sorted(r)[len(r) // 2]; c.sample("%s: %s: %d samples equal to the definition" % (a, k, r[k]["cmp"]))
    return c.finish("Every pair of sample formats is instantiated through convert_sample, convert (including both runtime-format overloads), interleave and deinterleave; the optimised value flow of every output sample must be the input scaled between the full scales, clamped to a full scale that the destination can represent, and only then truncated.", probes=sum(len(r) for r in res.values()), elements_compared=cmp, terms=terms, configurations=sorted(res))

main(run)

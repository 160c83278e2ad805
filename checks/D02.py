"""D02: every fixed-size FFT kernel, mixed-radix stage, real-transform packing and the DCT compute their linear maps (value-flow comparison over the reals)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from fftops import *

G = ["-DCMT_DISABLE_CLANG_EXT"]     # portable back end (used with GCC and MSVC)

def run():
    c = Check("D02", "proof"); th = c.tier == "thorough"; P = generate(th)
    A = lambda a: ARCH_FLAGS[a].split()
    archs = ("sse2", "sse41", "avx", "avx2", "avx512")
    SMALL = ("definition", "fft1", "fft2", "fft4", "fft8", "fft16", "fft32", "fft64")
    # same vector widths as sse2 and avx2: the quick tier repeats the smaller transforms only
    cfg = [(a, A(a), lambda i, a=a: FILT(a, i) and (th or a not in ("sse41", "avx") or i[5] in SMALL)) for a in archs] + [(a + ".portable", A(a) + G, lambda i, a=a: FILT(a, i) and (th or i[5] in ("fft16", "fft32", "fft64", "stage", "real", "ireal"))) for a in (archs if th else ("sse2",))]
    res = run_configs(c, P, cfg, shards=20, opt=MYOPT, reopt=REOPT)
    cmp, terms, _ = report(c, res)
    c.floor("probes", sum(len(r) for r in res.values()), 1150)
    for a, r in res.items():
        k = sorted(r)[len(r) // 2]; c.sample("%s: %s: %d elements equal to the definition" % (a, k, r[k]["cmp"]))
    return c.finish("Each transform object is built, its twiddle tables initialised and it is executed on symbolic input inside one function whose sizes are constants; the optimised value flow of every output component is reduced to a linear form in the input components, which must equal the row of the DFT (DCT, packed real DFT) matrix up to rounding of the coefficients.", probes=sum(len(r) for r in res.values()), elements_compared=cmp, terms=terms, configurations=sorted(res), transforms=sorted({i[5] for i in P.items}))

main(run)

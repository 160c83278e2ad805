"""F01, F03: recursive and non-recursive filters, delays and moving sums applied block by block, against the sample-by-sample recurrence."""
from flowrun import *
from laneops import MYOPT as LOPT
MYOPT = ["-unroll-threshold=200000" if o.startswith("-unroll-threshold") else o for o in LOPT] + ["-mllvm", "-disable-vector-combine"]   # LLVM 18 pass that loses a lane of fir17 with 16-byte vectors
REOPT = lambda it: 2

PRE = r'''#include <kfr/cident.h>
#undef CMT_NOINLINE
#define CMT_NOINLINE __attribute__((always_inline)) inline
#undef CMT_LOOP_NOUNROLL
#define CMT_LOOP_NOUNROLL
#undef CMT_LOOP_UNROLL
#define CMT_LOOP_UNROLL
#undef CMT_PRAGMA_CLANG
#define CMT_PRAGMA_CLANG(...)
#define KFR_USE_STD_ALLOCATION   // operator new: a fresh object for the analysis
#include <kfr/simd/vec.hpp>
#include <kfr/simd/operators.hpp>
#include <kfr/base/basic_expressions.hpp>
#include <cstring>
#include <kfr/base/filter.hpp>
#include <kfr/dsp/biquad.hpp>
#include <kfr/dsp/fir.hpp>
#include <kfr/dsp/delay.hpp>
using namespace kfr;
#define AI __attribute__((always_inline)) inline
// apply an expression built by f over the input block [p, p + n) in one pass
template <size_t n, class T, class U, class F> AI void BLOCK(U* o, const T* a, F&& f) { auto e = f(make_univector(a, n)); process(make_univector(o, n), e); }
// the same block read in pieces of N elements
template <size_t N, size_t n, class T, class U, class F> AI void PIECES(U* o, const T* a, F&& f) { auto e = f(make_univector(a, n)); begin_pass(e, shape<1>{ 0 }, shape<1>{ n }); _Pragma("unroll") for (size_t i = 0; i < n; i += N) { vec<U, N> v = get_elements(e, shape<1>{ (index_t)i }, axis_params<0, N>()); std::memcpy(o + i, &v.v, sizeof(v)); } end_pass(e, shape<1>{ 0 }, shape<1>{ n }); }
template <class T> struct QV { T *b, *e, *c; };
template <class T, int F> AI void D_IIR(T* o, const T* a, const T* q, int n) { T s1[F], s2[F]; for (int k = 0; k < F; ++k) s1[k] = s2[k] = 0; _Pragma("unroll") for (int i = 0; i < n; ++i) { T x = a[i]; _Pragma("unroll") for (int k = 0; k < F; ++k) { const T* c = q + 6 * k; T y = c[3] * x + s1[k]; s1[k] = s2[k] + c[4] * x - c[1] * y; s2[k] = c[5] * x - c[2] * y; x = y; } o[i] = x; } }
template <class T, class U> AI void D_FIR(U* o, const U* a, const T* h, int taps, int n) { _Pragma("unroll") for (int i = 0; i < n; ++i) { U r = 0; _Pragma("unroll") for (int k = 0; k < taps && k <= i; ++k) r += h[k] * a[i - k]; o[i] = r; } }
template <class U> AI void D_SUM(U* o, const U* a, int len, int n) { _Pragma("unroll") for (int i = 0; i < n; ++i) { U r = 0; _Pragma("unroll") for (int k = 0; k < len && k <= i; ++k) r += a[i - k]; o[i] = r; } }
template <class U> AI void D_DEL(U* o, const U* a, int d, int n) { _Pragma("unroll") for (int i = 0; i < n; ++i) o[i] = i < d ? (U)0 : a[i - d]; }
'''
PARTS = [(n,) for n in (1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 48)] + [(1, 1), (1, 2), (2, 1, 1), (3, 5), (4, 4), (5, 1, 6), (7, 9), (8, 8, 1), (16, 1), (1, 16), (16, 16), (17, 15, 3), (2, 33), (33, 2)]

def gen_iir(th=False):
    P = Probes(PRE)
    for T in ("f32", "f64"):
        for F in (1, 2, 4, 8) + ((3, 16, 32) if th else (16,)):
            for cnt in sorted({F, max(1, F - 1)}):
                for part in PARTS + ([(a, b) for a in range(1, 10) for b in range(1, 10)] if th else []):
                    if F >= 16 and sum(part) > 20 and not th: continue
                    off = 0; b = []; d = []
                    for i, n in enumerate(part): b.append("BLOCK<%d>(o + %d, a + %d, [&](auto in) { return iir(in, std::ref(st)); });" % (n, off, off)); off += n
                    sig = "%s* __restrict o, const %s* __restrict a, const %s* __restrict q" % (T, T, T)
                    st = "biquad_section<{0}> bq[{1}]; std::memcpy(bq, q, sizeof(bq)); iir_state<{0}, {2}> st(iir_params<{0}, {2}>(bq, size_t({1})));".format(T, cnt, F)
                    P.add("L", "iir%d_%d_%s_%s" % (F, cnt, T, "_".join(map(str, part))), sig, st + " ".join(b), "D_IIR<%s, %d>(o, a, q, %d);" % (T, cnt, off), group="iir")
            for N, n in ((1, 6), (2, 8), (4, 12), (8, 24), (16, 32)):
                P.add("L", "iirw%d_%d_%s" % (F, N, T), sig, "biquad_section<{0}> bq[{1}]; std::memcpy(bq, q, sizeof(bq)); iir_state<{0}, {1}> st(iir_params<{0}, {1}>(bq, size_t({1}))); ".format(T, F) + "PIECES<{0}, {1}>(o, a, [&](auto in) {{ return iir(in, std::ref(st)); }}); PIECES<{0}, {1}>(o + {1}, a + {1}, [&](auto in) {{ return iir(in, std::ref(st)); }});".format(N, n), "D_IIR<%s, %d>(o, a, q, %d);" % (T, F, 2 * n), group="iir")
    return P

PARTF = [(n,) for n in (1, 2, 3, 4, 5, 8, 9, 16, 17, 33)] + [(1, 1, 1), (1, 2), (3, 5), (5, 1, 6), (7, 9), (8, 8, 1), (16, 1, 3), (1, 16), (17, 15, 3), (2, 33)]

def gen_fir(th=False):
    P = Probes(PRE)
    parts = PARTF + ([(a, b) for a in range(1, 10) for b in range(1, 10)] if th else [])
    def run(M, name, group, T, U, state, call, spec, extra="", widths=((1, 6), (2, 8), (4, 12), (8, 24), (16, 32)), parts=parts):
        sig = "%s* __restrict o, const %s* __restrict a%s" % (U, U, extra)
        for part in parts:
            off = 0; b = []
            for n in part: b.append("BLOCK<%d>(o + %d, a + %d, [&](auto in) { return %s; });" % (n, off, off, call)); off += n
            P.add(M, "%s_%s" % (name, "_".join(map(str, part))), sig, state + " ".join(b), spec % off, group=group)
        for N, n in widths:
            P.add(M, "%s_w%d" % (name, N), sig, state + "PIECES<%d, %d>(o, a, [&](auto in) { return %s; });" % (N, n, call), spec % n, group=group)
    for T in ("f32", "f64"):
        for taps in (2, 3, 4, 5, 8, 9, 16) + ((6, 7, 11, 17, 24, 33) if th else ()):
            inner = 1 << (taps - 2).bit_length(); inner += 1
            run("P", "sfir%d_%s" % (taps, T), "short_fir", T, T, "univector<{0}, {1}> tp; std::memcpy(tp.data(), h, {1} * sizeof({0})); short_fir_state<{2}, {0}, {0}> st(tp); ".format(T, taps, inner),
                "short_fir(in, std::ref(st))", "D_FIR(o, a, h, %d, %%d);" % taps, ", const %s* __restrict h" % T)
        for taps in (1, 2, 3, 4, 5, 8, 9, 17) + ((6, 7, 16, 24, 33) if th else ()):
            run("P", "fir%d_%s" % (taps, T), "fir", T, T, "fir_state<{0}, {0}> st(fir_params<{0}>(h, size_t({1}))); ".format(T, taps), "fir(in, std::ref(st))", "D_FIR(o, a, h, %d, %%d);" % taps, ", const %s* __restrict h" % T)
    for U in ("f32", "f64", "i32"):
        for n in (1, 2, 3, 4, 7, 8, 16) + ((5, 9, 17, 33) if th else ()):
            run("L", "msum%d_%s" % (n, U), "moving_sum", U, U, "moving_sum_state<%s> st(size_t(%d)); " % (U, n), "moving_sum(in, std::ref(st))", "D_SUM(o, a, %d, %%d);" % n)
            run("L", "msumf%d_%s" % (n, U), "moving_sum", U, U, "moving_sum_state<%s, %d> st; " % (U, n), "moving_sum(in, std::ref(st))", "D_SUM(o, a, %d, %%d);" % n, parts=parts[::3])
        for n in (1, 2, 3, 4, 7, 8, 16, 17) + ((5, 9, 33) if th else ()):
            run("X", "del%d_%s" % (n, U), "delay", U, U, "delay_state<%s, %d> st; " % (U, n), "delay(in, std::ref(st))", "D_DEL(o, a, %d, %%d);" % n)
            if n > 1: run("X", "deld%d_%s" % (n, U), "delay", U, U, "delay_state<%s, %d, tag_dynamic_vector> st; " % (U, n), "delay(in, std::ref(st))", "D_DEL(o, a, %d, %%d);" % n, parts=parts[::3])
    return P

generate = gen_fir
PER = 40
if __name__ == "__main__": print(len(gen_iir().items), len(gen_fir().items))

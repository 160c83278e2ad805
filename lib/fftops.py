"""D02: probes for FFT/DFT stages of fixed size. Every stage object is built, initialised (its twiddle tables included) and executed on symbolic
input inside one function with all sizes constant; the optimised value flow must equal the DFT matrix applied to the input."""
from flowrun import *
from laneops import MYOPT as LOPT
MYOPT = ["-unroll-threshold=200000" if o.startswith("-unroll-threshold") else o for o in LOPT] + ["-I" + os.path.join(REPO, "src", "dft"), "-mllvm", "-pragma-unroll-threshold=1000000"]

PRE = r'''#include <kfr/simd/vec.hpp>
#include <kfr/simd/operators.hpp>
#include <kfr/simd/complex.hpp>
#include <cstring>
#include <cstdlib>
#define AI0 __attribute__((always_inline)) inline
namespace kfr { inline namespace CMT_ARCH_NAME {
// scalar sine and cosine of constants: better matches than the library's templates, folded at compile time
__attribute__((always_inline)) inline double cos(double x) { return __builtin_cos(x); } __attribute__((always_inline)) inline double sin(double x) { return __builtin_sin(x); }
// interleaved cosine/sine of constant vectors, likewise
namespace intrinsics {
AI0 float q_cos(float x) { return __builtin_cosf(x); } AI0 double q_cos(double x) { return __builtin_cos(x); } AI0 float q_sin(float x) { return __builtin_sinf(x); } AI0 double q_sin(double x) { return __builtin_sin(x); }
#define CS(T, N) AI0 vec<T, N> cossin(const vec<T, N>& x) { T v[N]; std::memcpy(v, &x.v, sizeof(v)); for (int i = 0; i < N; ++i) v[i] = i % 2 ? q_sin(v[i]) : q_cos(v[i]); vec<T, N> r; std::memcpy(&r.v, v, sizeof(v)); return r; } \
  AI0 vec<T, N> cos(const vec<T, N>& x) { T v[N]; std::memcpy(v, &x.v, sizeof(v)); for (int i = 0; i < N; ++i) v[i] = q_cos(v[i]); vec<T, N> r; std::memcpy(&r.v, v, sizeof(v)); return r; } \
  AI0 vec<T, N> sin(const vec<T, N>& x) { T v[N]; std::memcpy(v, &x.v, sizeof(v)); for (int i = 0; i < N; ++i) v[i] = q_sin(v[i]); vec<T, N> r; std::memcpy(&r.v, v, sizeof(v)); return r; }
#define CSB(N) CS(f32, N) CS(f64, N)
CSB(1) CSB(2) CSB(4) CSB(8) CSB(16) CSB(32) CSB(64) }
} }
#include <kfr/math/complex_math.hpp>
#undef CMT_NOINLINE
#define CMT_NOINLINE __attribute__((always_inline)) inline
#undef CMT_LOOP_NOUNROLL
#define CMT_LOOP_NOUNROLL
#undef CMT_LOOP_UNROLL
#define CMT_LOOP_UNROLL
#undef CMT_PRAGMA_CLANG
#define CMT_PRAGMA_CLANG(...)
#define KFR_NO_PREFETCH
#include "fft-impl.hpp"
#include "dft-impl.hpp"
using namespace kfr;
#define AI __attribute__((always_inline)) inline
namespace kfr { inline namespace CMT_ARCH_NAME { namespace intrinsics {
template <class S, class T> struct OPEN : S { using S::S; template <bool inv> AI void go(complex<T>* o, const complex<T>* i, u8* temp) { this->S::template do_execute<inv>(o, i, temp); } AI void init(size_t n) { this->S::do_initialize(n); } };
template <class T> struct OPEN<dft_stage_real_repack<T>, T> : dft_stage_real_repack<T> { using S = dft_stage_real_repack<T>; using S::S; template <bool inv> AI void go(complex<T>* o, const complex<T>* i, u8* temp) { this->S::do_execute(cbool<inv>, o, i, temp); } AI void init(size_t n) { this->S::do_initialize(n); } };
template <class T, bool inv, class S> AI void EXEC(S& s, T* o, const T* i, u8* temp) { s.template go<inv>(ptr_cast<complex<T>>(o), ptr_cast<complex<T>>(i), temp); }
template <class S, size_t N, bool inv, bool inplace, class T, class... A> AI void RUN(T* o, const T* a, A... args)
{
    alignas(64) u8 data[N * sizeof(complex<T>) * 2 + 256]; alignas(64) u8 temp[N * sizeof(complex<T>) + 256]; alignas(64) T x[2 * N], y[2 * N];
    std::memcpy(x, a, sizeof(x)); OPEN<S, T> s{args...}; s.data = data; s.init(N); T* r = inplace ? x : y;
    EXEC<T, inv>(s, r, x, temp); std::memcpy(o, r, sizeof(x));
}
} } }
using namespace kfr::intrinsics;
#define BUF(T, N) alignas(64) u8 temp[(N) * sizeof(T) * 4 + 512]; alignas(64) T x0[2 * (N)]; std::memcpy(x0, a, sizeof(x0));
#define STG(T, N, inv, k, k1, total, S, ...) alignas(64) T x##k1[2 * (N)]; alignas(64) u8 d##k[(N) * sizeof(T) * 4 + 512 + ((N) <= 128 ? (N) * (N) / 2 * sizeof(T) : 0)]; OPEN<S, T> s##k{__VA_ARGS__}; s##k.data = d##k; s##k.init(total); EXEC<T, inv>(s##k, x##k1, x##k, temp);
#define END(k) std::memcpy(o, x##k, sizeof(x##k));
using kfr::f32; using kfr::f64;
// definition: DFT by even/odd decimation (D) and directly by its matrix (DM)
template <int N> struct TAB;     // cosine and sine of 2*pi*m/N, m = 0 .. N-1, generated exactly
template <class T, bool inv, int N> AI void tw(long n, T& c, T& s) { c = (T)TAB<N>::c[n % N]; s = (T)TAB<N>::s[n % N]; if (!inv) s = -s; }
template <class T, int N, bool inv, int tn = 1> AI void DM(T* o, const T* a, long os = 1, long is = 1, long t = 0) { _Pragma("unroll") for (int k = 0; k < N; ++k) { T r = 0, i = 0; _Pragma("unroll") for (int n = 0; n < N; ++n) { T c, s; tw<T, inv, N>(n * k, c, s); r += a[2 * n * is] * c - a[2 * n * is + 1] * s; i += a[2 * n * is] * s + a[2 * n * is + 1] * c; } if constexpr (tn > 1) { T c, s; tw<T, inv, tn>(t * k, c, s); T u = r * c - i * s; i = r * s + i * c; r = u; } o[2 * k * os] = r; o[2 * k * os + 1] = i; } }
template <class T, int N, bool inv> AI void D(T* o, const T* a) { if constexpr (N % 2 || N <= 4) DM<T, N, inv>(o, a); else { T e[N], f[N], E[N], F[N]; for (int i = 0; i < N / 2; ++i) { e[2 * i] = a[4 * i]; e[2 * i + 1] = a[4 * i + 1]; f[2 * i] = a[4 * i + 2]; f[2 * i + 1] = a[4 * i + 3]; } D<T, N / 2, inv>(E, e); D<T, N / 2, inv>(F, f);
  for (int k = 0; k < N / 2; ++k) { T c, s; tw<T, inv, N>(k, c, s); T r = F[2 * k] * c - F[2 * k + 1] * s, i = F[2 * k] * s + F[2 * k + 1] * c; o[2 * k] = E[2 * k] + r; o[2 * k + 1] = E[2 * k + 1] + i; o[2 * k + N] = E[2 * k] - r; o[2 * k + N + 1] = E[2 * k + 1] - i; } } }
// the DCT on top of the complex transform, which is represented by its definition here
template <class T> AI void DSIZE(long n, complex<T>* o, const complex<T>* i) { switch (n) {
#define DS(N) case N: D<T, N, false>(ptr_cast<T>(o), ptr_cast<T>(i)); break;
  DS(2) DS(3) DS(4) DS(5) DS(7) DS(8) DS(12) DS(15) DS(16) DS(24) DS(31) DS(32) DS(64) default: __builtin_trap(); } }
namespace kfr { namespace internal_generic {
#define MODEL(T) template <> AI void dft_initialize<T>(dft_plan<T>& p) { p.temp_size = 64; } template <> AI void dft_execute<T, false>(const dft_plan<T>& p, cbool_t<false>, complex<T>* o, const complex<T>* i, u8*) { DSIZE<T>(p.size, o, i); }
MODEL(f32) MODEL(f64)
} }
template <class T, int N, bool inv> AI void DCT(T* o, const T* a) { alignas(64) unsigned char b[sizeof(dct_plan<T>)]; alignas(64) u8 temp[N * sizeof(T) * 4 + 64]; auto* p = new (b) dct_plan<T>(N); p->execute(o, a, temp, inv); }
'''

def B(x): return "true" if x else "false"

def radices(n):
    """the factorisation init_dft chooses"""
    cnt = {}
    for r in range(10, 1, -1):
        while n % r == 0: cnt[r] = cnt.get(r, 0) + 1; n //= r
    return [r for r in range(2, 11) for _ in range(cnt.get(r, 0))] + ([n] if n > 1 else [])

def chain(T, N, inv, k0=0):
    """the stages of a plan of N points (N not a power of two), from x<k0>; returns text and the last buffer"""
    st = []
    S = "STG({T}, {N}, {i}, {k}, {k1}, {N}, {S}, {a})"
    def put(cls, args):
        k = k0 + len(st); st.append(S.format(T=T, N=N, i=B(inv), k=k, k1=k + 1, S=cls, a=args))
    if N in (48, 60): put("DSPEC_%s_%d" % (T, N), ""); return " ".join(st), k0 + 1
    if N & (N - 1) == 0: put("DFFT_%s_%d" % (T, N.bit_length() - 1), "size_t(%d)" % N); return " ".join(st), k0 + 1
    rs = radices(N); it, bl = N, 1
    for r in rs:
        it //= r
        if r <= 10: put("DFIX%s_%s_%d" % ("F" if it == 1 else "", T, r), "size_t(%d), size_t(%d), size_t(%d)" % (r, it, bl))
        else: put("DGEN_%s" % T, "size_t(%d), size_t(%d), size_t(%d)" % (r, it, bl))
        bl *= r
    if len(rs) > 2: st.append("static const int radices_[] = {%s};" % ",".join(map(str, rs))); k = k0 + len(st) - 1; st.append(S.format(T=T, N=N, i=B(inv), k=k, k1=k + 1, S="DREO_%s" % T, a="radices_, size_t(%d)" % len(rs)))
    return " ".join(st), k0 + len(rs) + (len(rs) > 2)

def generate(thorough=False):
    al = []
    for T in ("f32", "f64"):
        for N, (a, b) in {48: (6, 8), 60: (6, 10)}.items(): al.append("using DSPEC_%s_%d = dft_special_stage_impl<%s, %d, %d>;" % (T, N, T, a, b))
        for r in range(2, 11): al.append("using DFIX_{0}_{1} = dft_stage_fixed_impl<{0}, {1}>; using DFIXF_{0}_{1} = dft_stage_fixed_final_impl<{0}, {1}>;".format(T, r))
        for k in range(0, 11): al.append("using DFFT_{0}_{1} = fft_specialization<{0}, {1}>;".format(T, k))
        al.append("using DGEN_{0} = dft_stage_generic_impl<{0}, true>; using DREO_{0} = dft_reorder_stage_impl<{0}>; using DREAL_{0} = dft_stage_real_repack<{0}>;".format(T))
        for f in ("true", "false"):
            for l in ("true", "false"):
                for r8 in ("true", "false"): al.append("using DAUTO_{0}_{1}{2}{3} = fft_autosort_stage_impl<{0}, {4}, {5}, {6}>;".format(T, f[0], l[0], r8[0], f, l, r8))
    from math import cos, sin, pi
    def tab(n):
        ex = lambda f, m: {0: (1, 0), 1: (0, 1), 2: (-1, 0), 3: (0, -1)}[4 * m // n][f] if 4 * m % n == 0 else (cos, sin)[f](2 * pi * m / n)
        return "template <> struct TAB<%d> { static constexpr double c[] = {%s}, s[] = {%s}; };" % (n, ",".join(repr(float(ex(0, m))) for m in range(n)), ",".join(repr(float(ex(1, m))) for m in range(n)))
    sizes = set(range(1, 257)) | {512, 1024} | {r * i for r in range(2, 11) for i in (67, 96)}
    pre = PRE.replace("template <class T, bool inv, int N> AI void tw(", "\n".join(tab(n) for n in sorted(sizes)) + "\ntemplate <class T, bool inv, int N> AI void tw(")
    P = Probes(pre + "\n".join(al) + "\n")
    for T in ("f32", "f64"):
        M = "Ph" if T == "f32" else "P"; sig = "%s* o, const %s* a" % (T, T)
        for N in (8, 16, 32): P.add(M, "def%d_%s" % (N, T), sig, "D<{0}, {1}, false>(o, a);".format(T, N), "DM<{0}, {1}, false>(o, a);".format(T, N), group="definition")
        for inv in (0, 1):
            for k in range(0, 11 if thorough else 9):
                N = 1 << k
                for ip in (0, 1): P.add(M, "fft%d_%s_%d%d" % (N, T, inv, ip), sig, "RUN<fft_specialization<{0}, {1}>, {2}, {3}, {4}>(o, a, size_t({2}));".format(T, k, N, B(inv), B(ip)), "D<{0}, {1}, {2}>(o, a);".format(T, N, B(inv)), group="fft%d" % N)
            # non-power-of-two plans
            for N in ([n for n in range(3, 101) if n & (n - 1)] + [108, 110, 120, 125, 135, 150, 162, 175, 189, 200, 210, 240] if thorough else [n for n in range(3, 25 if T == "f32" else 16) if n & (n - 1)] + ([27, 29, 35, 36, 48, 60, 72, 100] if T == "f32" else [27, 35, 48])):
                pid = "dft%d_%s_%d" % (N, T, inv)
                if M + "_" + pid in P.ids: continue
                t, k = chain(T, N, inv)
                P.add(M, pid, sig, "BUF({0}, {1}) {2} END({3})".format(T, N, t, k), ("D" if N % 4 == 0 else "DM") + "<{0}, {1}, {2}>(o, a);".format(T, N, B(inv)), group="dft")
            # single mixed-radix stages with enough iterations for every vector width
            for r in range(2, 11):
                for it, bl in ((1, 1), (3, 2), (67, 1), (96, 1)) if thorough else ((3, 2), (67, 1)) if T == "f32" else ((3, 2),) if r % 2 == inv else ((67, 1),):
                    N = r * it * bl
                    P.add(M, "stage%d_%d_%d_%s_%d" % (r, it, bl, T, inv), sig, "BUF({0}, {1}) STG({0}, {1}, {2}, 0, 1, {1}, {3}, size_t({4}), size_t({5}), size_t({6})) END(1)".format(T, N, B(inv), "DFIX_%s_%d" % (T, r), r, it, bl),
                          "_Pragma(\"unroll\") for (int b = 0; b < {3}; ++b) _Pragma(\"unroll\") for (int i = 0; i < {2}; ++i) DM<{0}, {1}, {4}, {5}>(o + 2 * (b * {5} + i), a + 2 * (b * {5} + i), {2}, {2}, i);".format(T, r, it, bl, B(inv), r * it), group="stage")
                for bl in (1, 3, 67, 96) if thorough else (3, 67) if T == "f32" else (67,):
                    N = r * bl
                    P.add(M, "final%d_%d_%s_%d" % (r, bl, T, inv), sig, "BUF({0}, {1}) STG({0}, {1}, {2}, 0, 1, {1}, {3}, size_t({4}), size_t(1), size_t({5})) END(1)".format(T, N, B(inv), "DFIXF_%s_%d" % (T, r), r, bl),
                          "_Pragma(\"unroll\") for (int b = 0; b < {2}; ++b) DM<{0}, {1}, {3}>(o + 2 * b, a + 2 * b * {1}, {2}, 1);".format(T, r, bl, B(inv)), group="final")
            # chained auto-sort stages of larger plans
            for N in (64, 128, 256) + ((512,) if thorough else ()):
                st = []; s = N; k = 0
                while True:
                    last = s < 16
                    st.append("STG({T}, {N}, {i}, {k}, {k1}, {N}, DAUTO_{T}_{f}{l}{r}, size_t({s}), size_t({d}))".format(T=T, N=N, i=B(inv), k=k, k1=k + 1, f="tf"[k > 0], l="ft"[last], r="tf"[not (last and s == 8)], s=s, d=N // s)); k += 1
                    if last: break
                    s //= 4
                P.add(M, "autosort%d_%s_%d" % (N, T, inv), sig, "BUF({0}, {1}) {2} END({3})".format(T, N, " ".join(st), k), "D<{0}, {1}, {2}>(o, a);".format(T, N, B(inv)), group="autosort")
            # recursive stages: one split radix-4 pass, then the final stage on each quarter, then the reordering
            for N in (256, 512):
                P.add(M, "split%d_%s_%d" % (N, T, inv), sig, "BUF({T}, {N}) constexpr size_t w = fft_config<{T}>::process_width; alignas(64) {T} y[2 * {N}]; alignas(64) u8 d[{N} * 32 + 512], d2[{N} * 32 + 512]; auto* t = kfr::ptr_cast<kfr::complex<{T}>>(d); initialize_twiddles<{T}, w>(t, {N}, {N}, true); const kfr::complex<{T}>* t2 = kfr::ptr_cast<kfr::complex<{T}>>(d); radix4_pass(size_t({N}), 1, kfr::csize_t<w>(), kfr::ctrue, kfr::cfalse, kfr::ctrue, kfr::cfalse, kfr::cbool_t<{i}>(), kfr::cfalse, kfr::ptr_cast<kfr::complex<{T}>>(y), kfr::ptr_cast<kfr::complex<{T}>>(static_cast<const {T}*>(x0)), t2); "
                      "using F = fft_final_stage_impl<{T}, true, {Q}>; OPEN<F, {T}> f(size_t({Q})); f.data = d2; f.init({N}); for (int q = 0; q < 4; ++q) f.template go<{i}>(kfr::ptr_cast<kfr::complex<{T}>>(y + 2 * {Q} * q), kfr::ptr_cast<kfr::complex<{T}>>(static_cast<const {T}*>(y + 2 * {Q} * q)), temp); fft_reorder(kfr::ptr_cast<kfr::complex<{T}>>(y), size_t({L}), kfr::ctrue); std::memcpy(o, y, sizeof(y));".format(T=T, N=N, i=B(inv), Q=N // 4, L=N.bit_length() - 1), "D<{0}, {1}, {2}>(o, a);".format(T, N, B(inv)), group="split")
        for N in (2, 3, 4, 5, 7, 8, 12, 15, 16, 24, 31, 32, 64) if thorough else (2, 3, 5, 8, 15, 16, 31, 32):
            for inv in (0, 1):
                c = lambda n, k: "(T)TAB<%d>::c[%d]" % (4 * N, (2 * n + 1) * k % (4 * N))
                sp = " ".join("o[%d] = %s;" % (k, " + ".join("a[%d] * %s" % (n, c(n, k)) for n in range(N))) for k in range(N)) if not inv else " ".join("o[%d] = a[0] * (T)0.5 + %s;" % (n, " + ".join("a[%d] * %s" % (k, c(n, k)) for k in range(1, N))) for n in range(N))
                P.add(M, "dct%d_%s_%d" % (N, T, inv), "%s* __restrict o, const %s* __restrict a" % (T, T), "DCT<%s, %d, %s>(o, a);" % (T, N, B(inv)), "using T = %s; %s" % (T, sp), group="dct")
        # real transforms
        for N in (2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24, 30, 32, 36, 40, 48, 64, 66, 80, 96, 120, 128, 144, 200, 256) if thorough else (2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 32, 38, 64, 72, 128) if T == "f32" else (2, 4, 6, 8, 10, 16, 18, 32, 64):
            H = N // 2
            for fmt in ("CCs", "Perm"):
                t, k = chain(T, H, 0) if H > 1 else ("STG({0}, 1, false, 0, 1, 1, DFFT_{0}_0, size_t(1))".format(T), 1)
                rep = "alignas(64) {T} y[{N} + 2]; alignas(64) u8 dr[{N} * 16 + 512]; OPEN<DREAL_{T}, {T}> sr(size_t({N}), kfr::dft_pack_format::{fmt}); sr.data = dr; sr.init({N}); ".format(T=T, N=N, fmt=fmt)
                P.add(M, "real%d_%s_%s" % (N, fmt, T), sig, "BUF({T}, {H}) {t} {rep} EXEC<{T}, false>(sr, y, x{k}, temp); std::memcpy(o, y, sizeof({T}) * ({N} + {e}));".format(T=T, H=H, t=t, rep=rep, k=k, N=N, e=2 if fmt == "CCs" else 0),
                      "{T} c[2 * {N}], y[2 * {N}]; for (int i = 0; i < {N}; ++i) c[2 * i] = a[i], c[2 * i + 1] = 0; {D}<{T}, {N}, false>(y, c); for (int i = 0; i < {N}; ++i) o[i] = y[i]; o[1] = {x}; {y}".format(T=T, N=N, D="D" if N % 4 == 0 else "DM", x="y[%d]" % N if fmt == "Perm" else "0", y="o[%d] = y[%d]; o[%d] = 0;" % (N, N, N + 1) if fmt == "CCs" else ""), group="real")
                t, k = chain(T, H, 1, 1) if H > 1 else ("STG({0}, 1, true, 1, 2, 1, DFFT_{0}_0, size_t(1))".format(T), 2)
                P.add(M, "ireal%d_%s_%s" % (N, fmt, T), sig, "alignas(64) u8 temp[{N} * sizeof({T}) * 2 + 512]; alignas(64) {T} x0[{N} + 2]; std::memcpy(x0, a, sizeof({T}) * ({N} + {e})); {rep} alignas(64) {T} x1[{N}]; EXEC<{T}, true>(sr, x1, x0, temp); {t} END({k})".format(T=T, N=N, e=2 if fmt == "CCs" else 0, rep=rep, t=t, k=k),
                      "{T} c[2 * {N}], y[2 * {N}]; c[0] = a[0]; c[1] = 0; c[{N}] = {x}; c[{N} + 1] = 0; for (int i = 1; i < {H}; ++i) {{ c[2 * i] = c[2 * ({N} - i)] = a[2 * i]; c[2 * i + 1] = a[2 * i + 1]; c[2 * ({N} - i) + 1] = -a[2 * i + 1]; }} {D}<{T}, {N}, true>(y, c); for (int i = 0; i < {N}; ++i) o[i] = y[2 * i];".format(T=T, N=N, H=H, D="D" if N % 4 == 0 else "DM", x="a[%d]" % N if fmt == "CCs" else "a[1]"), group="ireal")
    return P
if __name__ == "__main__": print(len(generate().items))
PER = 40
REOPT = lambda it: 6 if "dft60_f64" in it[0] else 3 if it[5] == "split" or re.search("dft(48|60)_|real(96|120)_", it[0]) else 0

def FILT(arch, it):
    """the split chain needs a quarter at least four process widths long: 512 points for f32 on AVX-512"""
    if it[5] == "split": return ("split512" in it[0]) == (arch.startswith("avx512") and "f32" in it[0])
    return True

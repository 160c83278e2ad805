"""S03: probes for complex vector arithmetic (definitions written on the real and imaginary components, compared over the reals)
and for the elementary functions of complex arguments, whose real building blocks are opaque functions here."""
from flowrun import *
from laneops import MYOPT

OQ = ["sin", "cos", "sinh", "cosh", "exp", "log"]
PRE = r'''#include <kfr/simd/vec.hpp>
#include <kfr/simd/operators.hpp>
#include <kfr/simd/complex.hpp>
#include <cstring>
namespace kfr {
#define OQ1(f) extern "C" f32 oq_##f##_f32(f32) __attribute__((const)); extern "C" f64 oq_##f##_f64(f64) __attribute__((const)); \
  __attribute__((always_inline)) inline f32 oq_##f(f32 x) { return oq_##f##_f32(x); } __attribute__((always_inline)) inline f64 oq_##f(f64 x) { return oq_##f##_f64(x); }
OQ1(sin) OQ1(cos) OQ1(sinh) OQ1(cosh) OQ1(exp) OQ1(log)
extern "C" f32 oq_atan2_f32(f32, f32) __attribute__((const)); extern "C" f64 oq_atan2_f64(f64, f64) __attribute__((const));
__attribute__((always_inline)) inline f32 oq_atan2(f32 y, f32 x) { return oq_atan2_f32(y, x); } __attribute__((always_inline)) inline f64 oq_atan2(f64 y, f64 x) { return oq_atan2_f64(y, x); }
inline namespace CMT_ARCH_NAME { namespace intrinsics {
// elementwise stand-ins, better matches than the library's templates
#define EL1(T, N, f) __attribute__((always_inline)) inline vec<T, N> f(const vec<T, N>& x) { T v[N]; std::memcpy(v, &x.v, sizeof(v)); for (int i = 0; i < N; ++i) v[i] = oq_##f(v[i]); vec<T, N> r; std::memcpy(&r.v, v, sizeof(v)); return r; }
#define EL2(T, N, f, e, o) __attribute__((always_inline)) inline vec<T, N> f(const vec<T, N>& x) { T v[N]; std::memcpy(v, &x.v, sizeof(v)); for (int i = 0; i < N; ++i) v[i] = i % 2 ? oq_##o(v[i]) : oq_##e(v[i]); vec<T, N> r; std::memcpy(&r.v, v, sizeof(v)); return r; }
#define ALLF(T, N) EL1(T, N, exp) EL1(T, N, log) EL1(T, N, sin) EL1(T, N, cos) EL1(T, N, sinh) EL1(T, N, cosh) EL2(T, N, sincos, sin, cos) EL2(T, N, cossin, cos, sin) EL2(T, N, sinhcosh, sinh, cosh) EL2(T, N, coshsinh, cosh, sinh) \
  __attribute__((always_inline)) inline vec<T, N> atan2(const vec<T, N>& y, const vec<T, N>& x) { T u[N], v[N]; std::memcpy(u, &y.v, sizeof(v)); std::memcpy(v, &x.v, sizeof(v)); for (int i = 0; i < N; ++i) v[i] = oq_atan2(u[i], v[i]); vec<T, N> r; std::memcpy(&r.v, v, sizeof(v)); return r; }
#define BOTH(N) ALLF(f32, N) ALLF(f64, N)
BOTH(1) BOTH(2) BOTH(3) BOTH(4) BOTH(5) BOTH(6) BOTH(8) BOTH(10) BOTH(16) BOTH(32)
} } }
#include <kfr/math/complex_math.hpp>
using namespace kfr;
#define AI __attribute__((always_inline)) inline
template <class T, size_t N> AI vec<complex<T>, N> LDC(const T* p) { vec<complex<T>, N> r; std::memcpy(&r.v, p, sizeof(T) * 2 * N); return r; }
template <class T, size_t N> AI vec<T, N> LD(const T* p) { vec<T, N> r; std::memcpy(&r.v, p, sizeof(T) * N); return r; }
template <class T, size_t N, class R> AI void OUTC(T* o, const R& r) { static_assert(std::is_same_v<std::decay_t<R>, vec<complex<T>, N>>, "result type"); std::memcpy(o, &r.v, sizeof(T) * 2 * N); }
template <class T, size_t N, class R> AI void OUT(T* o, const R& r) { static_assert(std::is_same_v<std::decay_t<R>, vec<T, N>>, "result type"); std::memcpy(o, &r.v, sizeof(T) * N); }
template <class T> AI void OUTS(T* o, const complex<T>& r) { o[0] = r.real(); o[1] = r.imag(); }
template <class T> AI T d_sqrt(T a) { return sizeof(T) == 4 ? (T)__builtin_sqrtf((float)a) : (T)__builtin_sqrt((double)a); }
template <class T> AI T d_abs(T a) { return sizeof(T) == 4 ? (T)__builtin_fabsf((float)a) : (T)__builtin_fabs((double)a); }
template <class T> AI T d_cs(T m, T s) { using U = std::conditional_t<sizeof(T) == 4, unsigned, unsigned long>; U a, b; std::memcpy(&a, &m, sizeof(T)); std::memcpy(&b, &s, sizeof(T)); a ^= b & ((U)1 << (sizeof(T) * 8 - 1)); T r; std::memcpy(&r, &a, sizeof(T)); return r; }
'''

q = lambda call: "kfr::" + call if re.match(r"[a-z]\w*[(]", call) else call

def generate():
    P = Probes(PRE)
    for T in ("f32", "f64"):
        O = "f64" if T == "f32" else "f32"
        for N in (1, 2, 3, 4, 5, 8, 16):
            sig = "{0}* o, const {0}* a, const {0}* b, {0} sr, {0} si".format(T)
            pre = "auto x = LDC<{0}, {1}>(a); auto y = LDC<{0}, {1}>(b); complex<{0}> s(sr, si); (void)x, (void)y, (void)s; ".format(T, N)
            ar, ai, br, bi = "a[@]", "a[#]", "b[@]", "b[#]"
            def put(e, k): return e.replace("@", str(2 * k)).replace("#", str(2 * k + 1))
            def op(name, call, re, im, grp=None, mode="P"):
                P.add(mode, "%s_%s_%d" % (name, T, N), sig, pre + "OUTC<%s, %d>(o, %s);" % (T, N, q(call)), " ".join(put("o[@] = %s; o[#] = %s;" % (re, im), k) for k in range(N)), group=grp or name)
            def rl(name, call, ex, grp=None, mode="P"):
                P.add(mode, "%s_%s_%d" % (name, T, N), sig, pre + "OUT<%s, %d>(o, kfr::%s);" % (T, N, call), " ".join("o[%d] = %s;" % (k, put(ex, k)) for k in range(N)), group=grp or name)
            def sc(name, call, re, im, grp=None, mode="P"):     # scalar complex overloads
                if N == 1: P.add(mode, "%s_%s_S" % (name, T), sig, "complex<{0}> x(a[0], a[1]), y(b[0], b[1]), s(sr, si); (void)x, (void)y, (void)s; OUTS<{0}>(o, kfr::{1});".format(T, call), put("o[@] = %s; o[#] = %s;" % (re, im), 0), group=grp or name)
            def rs(name, call, ex, grp=None, mode="P"):
                if N == 1: P.add(mode, "%s_%s_S" % (name, T), sig, "complex<{0}> x(a[0], a[1]), y(b[0], b[1]), s(sr, si); (void)x, (void)y, (void)s; {0} r = kfr::{1}; o[0] = r;".format(T, call), "o[0] = %s;" % put(ex, 0), group=grp or name)
            def mul(a, b): return "(%s * %s - %s * %s)" % (a[0], b[0], a[1], b[1]), "(%s * %s + %s * %s)" % (a[0], b[1], a[1], b[0])
            def div(a, b):
                m = "(%s * %s + %s * %s)" % (b[0], b[0], b[1], b[1])
                return "((%s * %s + %s * %s) / %s)" % (a[0], b[0], a[1], b[1], m), "((%s * %s - %s * %s) / %s)" % (a[1], b[0], a[0], b[1], m)
            A, B, S, R1 = (ar, ai), (br, bi), ("sr", "si"), ("sr", "(%s)0" % T)
            add = lambda a, b: ("(%s + %s)" % (a[0], b[0]), "(%s + %s)" % (a[1], b[1])); sub = lambda a, b: ("(%s - %s)" % (a[0], b[0]), "(%s - %s)" % (a[1], b[1]))
            for nm, o, f in (("add", "+", add), ("sub", "-", sub), ("mul", "*", mul), ("div", "/", div)):
                op(nm, "x %s y" % o, *f(A, B)); op(nm + "C", "(x %s= y)" % o, *f(A, B)); op(nm + "VS", "x %s s" % o, *f(A, S)); op(nm + "SV", "s %s y" % o, *f(S, B)); op(nm + "CS", "(x %s= s)" % o, *f(A, S))
                op(nm + "VR", "x %s sr" % o, *f(A, R1)); op(nm + "RV", "sr %s y" % o, *f(R1, B))
                op("fn" + nm, "%s(x, y)" % nm, *f(A, B))
                op(nm + "VRV", "x %s LD<%s, %d>(b)" % (o, T, N), *[e for e in f(A, ("b[!]", "(%s)0" % T))]) if False else None
            op("neg", "-x", "-" + ar, "-" + ai); op("conj", "cconj(x)", ar, "-" + ai); op("cnegimag", "cnegimag(x)", ar, "-" + ai); op("cnegreal", "cnegreal(x)", "-" + ar, ai)
            sc("conj", "cconj(x)", ar, "-" + ai)
            op("cswapreim", "cswapreim(x)", ai, ar); op("cdupreal", "cdupreal(x)", ar, ar); op("cdupimag", "cdupimag(x)", ai, ai)
            op("muli", "x * complex<%s>(0, 1)" % T, "-" + ai, ar); op("mulmi", "complex<%s>(0, -1) * x" % T, ai, "-" + ar); op("imulw", "cnegreal(cswapreim(x))", "-" + ai, ar)
            op("mulconj", "x * cconj(y)", *mul(A, (br, "(-%s)" % bi))); op("normsq", "x * cconj(x)", "(a[@] * a[@] + a[#] * a[#])", "(%s)0" % T)
            op("fmadd", "x * y + x", "(%s + a[@])" % mul(A, B)[0], "(%s + a[#])" % mul(A, B)[1])
            rl("real", "real(x)", ar); rl("imag", "imag(x)", ai); rs("real", "real(x)", ar); rs("imag", "imag(x)", ai)
            P.add("P", "make_complex_%s_%d" % (T, N), sig, "OUTC<{0}, {1}>(o, make_complex(LD<{0}, {1}>(a), LD<{0}, {1}>(b)));".format(T, N), " ".join("o[%d] = a[%d]; o[%d] = b[%d];" % (2 * k, k, 2 * k + 1, k) for k in range(N)), group="make_complex")
            P.add("P", "r2c_%s_%d" % (T, N), sig, "OUTC<{0}, {1}>(o, vec<complex<{0}>, {1}>(LD<{0}, {1}>(a)));".format(T, N), " ".join("o[%d] = a[%d]; o[%d] = 0;" % (2 * k, k, 2 * k + 1) for k in range(N)), group="convert")
            P.add("P", "c2c_%s_%d" % (T, N), "%s* o, const %s* a" % (O, T), "OUTC<{2}, {1}>(o, promoteto<complex<{2}>>(LDC<{0}, {1}>(a)));".format(T, N, O), " ".join("o[%d] = (%s)a[%d];" % (k, O, k) for k in range(2 * N)), group="convert")
            P.add("P", "bcast_%s_%d" % (T, N), sig, "OUTC<{0}, {1}>(o, vec<complex<{0}>, {1}>(complex<{0}>(sr, si)));".format(T, N), " ".join("o[%d] = sr; o[%d] = si;" % (2 * k, 2 * k + 1) for k in range(N)), group="convert")
            P.add("P", "ccomp_%s_%d" % (T, N), sig, "OUTC<{0}, {1}>(o, ccomp(LD<{0}, {2}>(a)));".format(T, N, 2 * N), " ".join("o[%d] = a[%d];" % (k, k) for k in range(2 * N)), group="convert")
            P.add("P", "cdecom_%s_%d" % (T, N), sig, pre + "OUT<{0}, {1}>(o, cdecom(x));".format(T, 2 * N), " ".join("o[%d] = a[%d];" % (k, k) for k in range(2 * N)), group="convert")
            # functions
            ab = "(a[@] * a[@] + a[#] * a[#])"; mag = "d_sqrt<%s>%s" % (T, ab); arg = "oq_atan2(a[#], a[@])"
            rl("cabssqr", "cabssqr(x)", ab); rl("cabs", "cabs(x)", mag); rl("carg", "carg(x)", arg); rs("cabssqr", "cabssqr(x)", ab); rs("cabs", "cabs(x)", mag); rs("carg", "carg(x)", arg)
            L2, L10 = "(%s)0.693147180559945309417232121458176" % T, "(%s)2.302585092994045684017991454684364" % T
            ex = lambda k: ("oq_exp(%s) * oq_cos(%s)" % (k % "a[@]", k % "a[#]"), "oq_exp(%s) * oq_sin(%s)" % (k % "a[@]", k % "a[#]"))
            for nm, (re, im), tol in (
                    ("csqr", mul(A, A), "P"), ("polar", (mag, arg), "P"), ("cartesian", ("a[@] * oq_cos(a[#])", "a[@] * oq_sin(a[#])"), "P"),
                    ("csin", ("oq_sin(a[@]) * oq_cosh(a[#])", "oq_cos(a[@]) * oq_sinh(a[#])"), "P"), ("ccos", ("oq_cos(a[@]) * oq_cosh(a[#])", "-(oq_sin(a[@]) * oq_sinh(a[#]))"), "P"),
                    ("csinh", ("oq_sinh(a[@]) * oq_cos(a[#])", "oq_cosh(a[@]) * oq_sin(a[#])"), "P"), ("ccosh", ("oq_cosh(a[@]) * oq_cos(a[#])", "oq_sinh(a[@]) * oq_sin(a[#])"), "P"),
                    ("cexp", ex("%s"), "P"), ("cexp2", ex("%%s * %s" % L2), "P"), ("cexp10", ex("%%s * %s" % L10), "P"),
                    ("clog", ("oq_log(%s)" % mag, arg), "P"), ("clog2", ("oq_log(%s) * ((%s)1 / %s)" % (mag, T, L2), "%s * ((%s)1 / %s)" % (arg, T, L2)), "Ph"), ("clog10", ("oq_log(%s) * ((%s)1 / %s)" % (mag, T, L10), "%s * ((%s)1 / %s)" % (arg, T, L10)), "Ph")):
                op(nm, "%s(x)" % nm, re, im, mode=tol); sc(nm, "%s(x)" % nm, re, im, mode=tol)
            s = "d_sqrt<{0}>((d_abs<{0}>(a[@]) + {1}) * ({0})0.5)".format(T, mag); d = "({1} == 0 ? ({0})0 : d_abs<{0}>(a[#]) * ({0})0.5 / {1})".format(T, s)
            op("csqrt", "csqrt(x)", "(a[@] >= 0 ? %s : %s)" % (s, d), "d_cs<%s>(a[@] >= 0 ? %s : %s, a[#])" % (T, d, s)); sc("csqrt", "csqrt(x)", "(a[@] >= 0 ? %s : %s)" % (s, d), "d_cs<%s>(a[@] >= 0 ? %s : %s, a[#])" % (T, d, s))
    return P

if __name__ == "__main__": print(len(generate().items))

"""F04: biquad designers against the bilinear transform of their analog prototypes."""
from flowrun import *
from laneops import MYOPT

PRE = r'''#include <cmath>
#include <kfr/simd/vec.hpp>
#include <kfr/dsp/biquad_design.hpp>
#include <cstring>
using namespace kfr;
#define AI __attribute__((always_inline)) inline
template <class T> AI void OUT(T* o, const biquad_section<T>& r) { o[0] = r.a0; o[1] = r.a1; o[2] = r.a2; o[3] = r.b0; o[4] = r.b1; o[5] = r.b2; }
// s = (1/K) (1 - 1/z) / (1 + 1/z) put into (b2 s^2 + b1 s + b0) / (a2 s^2 + a1 s + a0), the leading denominator coefficient scaled to one
template <class T> AI void BIL(T* o, T K, T b2, T b1, T b0, T a2, T a1, T a0)
{
    T d = a2 + a1 * K + a0 * K * K;
    o[0] = 1; o[1] = 2 * (a0 * K * K - a2) / d; o[2] = (a2 - a1 * K + a0 * K * K) / d;
    o[3] = (b2 + b1 * K + b0 * K * K) / d; o[4] = 2 * (b0 * K * K - b2) / d; o[5] = (b2 - b1 * K + b0 * K * K) / d;
}
template <class T> AI T AMP(T g) { return std::exp(std::fabs(g) * (1.0 / 20.0) * c_log_10<T>); }
template <class T> constexpr T R2 = (T)1.41421356237309504880L;
#define K_ T K = std::tan(c_pi<T, 1> * f);
'''
SPEC = {    # numerator and denominator of the prototype, highest power of s first
    "lowpass": ("0, 0, 1", "1, 1 / q, 1"), "highpass": ("1, 0, 0", "1, 1 / q, 1"), "bandpass": ("0, 1 / q, 0", "1, 1 / q, 1"), "notch": ("1, 0, 1", "1, 1 / q, 1"), "allpass": ("1, -1 / q, 1", "1, 1 / q, 1")}
GSPEC = {   # boost; the cut by the same amount is the reciprocal
    "peak": ("1, V / q, 1", "1, 1 / q, 1"), "lowshelf": ("1, std::sqrt(2 * V), V", "1, R2<T>, 1"), "highshelf": ("V, std::sqrt(2 * V), 1", "1, R2<T>, 1")}

def generate(th=False):
    P = Probes(PRE)
    for T in ("f32", "f64"):
        M = "Pf" if T == "f32" else "P"
        for k, (n, d) in SPEC.items():
            P.add(M, "%s_%s" % (k, T), "%s* o, %s f, %s q" % (T, T, T), "OUT(o, biquad_%s<%s>(f, q));" % (k, T), "using T = %s; K_ BIL<T>(o, K, T(%s), T(%s));" % (T, n.replace(", ", "), T("), d.replace(", ", "), T(")), group="designer")
        for k, (n, d) in GSPEC.items():
            q = "q, " if k == "peak" else ""
            w = lambda s: "T(%s)" % s.replace(", ", "), T(")
            P.add(M, "%s_%s" % (k, T), "%s* o, %s f, %s q, %s g" % (T, T, T, T), "OUT(o, biquad_%s<%s>(f, %sg));" % (k, T, q), "using T = %s; K_ T V = AMP<T>(g); if (g >= 0) BIL<T>(o, K, %s, %s); else BIL<T>(o, K, %s, %s);" % (T, w(n), w(d), w(d), w(n)), group="designer")
    return P
PER = 4

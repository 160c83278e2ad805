"""I02: sample format conversions against scale, clamp to full scale, truncate."""
from flowrun import *
from laneops import MYOPT as LOPT
MYOPT = LOPT

PRE = r'''#include <kfr/cident.h>
#undef CMT_LOOP_NOUNROLL
#define CMT_LOOP_NOUNROLL
#include <kfr/base/conversion.hpp>
#include <cstring>
using namespace kfr;
#define AI __attribute__((always_inline)) inline
// full scale: the largest sample value of the format
template <class T> struct FS; template <> struct FS<i8> { static constexpr long double v = 127; }; template <> struct FS<i16> { static constexpr long double v = 32767; }; template <> struct FS<i24> { static constexpr long double v = 8388607; };
template <> struct FS<i32> { static constexpr long double v = 2147483647; }; template <> struct FS<i64> { static constexpr long double v = 9223372036854774784.0L; }; template <> struct FS<f32> { static constexpr long double v = 1; }; template <> struct FS<f64> { static constexpr long double v = 1; };
template <class T> AI int d_val(T, ...);
template <class T> struct VAL { static AI T get(const T& x) { return x; } static AI T put(T x) { return x; } template <class F> static AI T trunc(F x) { return (T)x; } };
template <> struct VAL<i24> { static AI i32 get(const i24& x) { unsigned char b[3]; std::memcpy(b, &x, 3); return (i32)((unsigned)b[0] << 8 | (unsigned)b[1] << 16 | (unsigned)b[2] << 24) >> 8; } template <class F> static AI i24 trunc(F x) { i32 v = (i32)x; i24 r(0); std::memcpy(&r, &v, 3); return r; } };
template <class To, class Ti> AI To D_CONV(const Ti& x)
{
    using C = std::conditional_t<(sizeof(To) >= 4 && !std::is_same_v<To, f32>) || (sizeof(Ti) >= 4 && !std::is_same_v<Ti, f32>), f64, f32>;   // computed in double when either format has 32 bits or more
    C s = (C)((C)FS<To>::v / (C)FS<Ti>::v), hi = (C)FS<To>::v, lo = -hi;
    C v = (C)VAL<Ti>::get(x) * s; v = v < hi ? v : hi; v = v > lo ? v : lo;
    return VAL<To>::trunc(v);
}
'''
TY = ["i8", "i16", "i24", "i32", "i64", "f32", "f64"]

def generate(th=False):
    P = Probes(PRE)
    for a in TY:
        for b in TY:
            one = "o[{1}] = D_CONV<{0}, {2}>(a[{3}]);"
            S = lambda pairs: " ".join("o[%d] = %s;" % (i, "a[%d]" % j if a == b else "D_CONV<%s, %s>(a[%d])" % (b, a, j)) for i, j in pairs)
            sig = "%s* __restrict o, const %s* __restrict a" % (b, a)
            P.add("M", "sample_%s_%s" % (a, b), sig, "o[0] = convert_sample<%s>(a[0]);" % b, S([(0, 0)]), group="convert_sample")
            for n in (1, 3, 4) + ((8, 17) if th else ()):
                P.add("M", "conv%d_%s_%s" % (n, a, b), sig, "convert(o, a, size_t(%d));" % n, S((i, i) for i in range(n)), group="convert")
            P.add("M", "cin_%s_%s" % (a, b), sig, "convert(o, static_cast<const void*>(a), audio_sample_type::%s, size_t(2));" % a, S((i, i) for i in range(2)), group="convert_runtime")
            P.add("M", "cout_%s_%s" % (a, b), sig, "convert(static_cast<void*>(o), audio_sample_type::%s, a, size_t(2));" % b, S((i, i) for i in range(2)), group="convert_runtime")
            for ch, n in ((1, 3), (2, 3), (3, 2)):
                P.add("M", "deint%d_%s_%s" % (ch, a, b), sig, "%s* p[] = {%s}; deinterleave(p, a, size_t(%d), size_t(%d));" % (b, ", ".join("o + %d" % (c * n) for c in range(ch)), ch, n), S((c * n + i, i * ch + c) for c in range(ch) for i in range(n)), group="deinterleave")
                P.add("M", "int%d_%s_%s" % (ch, a, b), sig, "const %s* p[] = {%s}; interleave(o, p, size_t(%d), size_t(%d));" % (a, ", ".join("a + %d" % (c * n) for c in range(ch)), ch, n), S((i * ch + c, c * n + i) for c in range(ch) for i in range(n)), group="interleave")
    return P
PER = 16

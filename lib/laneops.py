"""S02: probes for lane-wise operations. Every operation is defined per lane by scalar C++ (arithmetic in the element type, without
integer promotion: the definition of a narrow integer operation is the operation on a one-lane clang vector)."""
from flowrun import *

PRE = r'''#include <kfr/simd/vec.hpp>
#include <kfr/simd/operators.hpp>
#include <kfr/simd/comparison.hpp>
#include <kfr/simd/logical.hpp>
#include <kfr/simd/select.hpp>
#include <kfr/simd/min_max.hpp>
#include <kfr/simd/abs.hpp>
#include <kfr/simd/clamp.hpp>
#include <kfr/simd/saturation.hpp>
#include <kfr/simd/mask.hpp>
#include <cstring>
using namespace kfr;
#define AI __attribute__((always_inline)) inline
template <class T, size_t N> AI vec<T, N> LD(const void* p) { vec<T, N> r; std::memcpy(&r.v, p, sizeof(T) * N); return r; }
template <class T, size_t N> AI void ST(void* o, const vec<T, N>& x) { std::memcpy(o, &x.v, sizeof(T) * N); }
template <class T, size_t N, class R> AI void OUT(T* o, const R& r) { static_assert(std::is_same_v<std::decay_t<R>, vec<T, N>>, "result type"); ST(o, r); }
template <class T, size_t N, class R> AI void OUTM(void* o, const R& r) { static_assert(std::is_same_v<std::decay_t<R>, vec<bit<T>, N>>, "result type"); ST(o, r.asvec()); }
#define BODY(name, ex) template <class T> AI T name(T a_, T b_) { typedef T V __attribute__((ext_vector_type(1))); V a = a_, b = b_; V r = ex; return r[0]; }
BODY(d_add, a + b) BODY(d_sub, a - b) BODY(d_mul, a * b) BODY(d_div, a / b) BODY(d_mod, a % b) BODY(d_and, a & b) BODY(d_or, a | b) BODY(d_xor, a ^ b) BODY(d_andnot, a & ~b) BODY(d_shl, a << b) BODY(d_shr, a >> b) BODY(d_neg, -a) BODY(d_not, ~a)
template <class U, class T> AI U BC(T x) { U u; static_assert(sizeof(U) == sizeof(T)); __builtin_memcpy(&u, &x, sizeof(U)); return u; }
template <class T> AI T d_min(T a, T b) { return a < b ? a : b; }
template <class T> AI T d_max(T a, T b) { return a > b ? a : b; }
template <class T> AI T d_sel(bool m, T a, T b) { return m ? a : b; }
template <class T> AI T d_abs(T a) { if constexpr (std::is_floating_point_v<T>) return sizeof(T) == 4 ? (T)__builtin_fabsf((float)a) : (T)__builtin_fabs((double)a); else if constexpr (std::is_unsigned_v<T>) return a; else return a > 0 ? a : d_neg<T>(a, a); }
template <class T> AI T d_addsat(T a, T b) { typedef T V __attribute__((ext_vector_type(1))); V x = a, y = b; return __builtin_elementwise_add_sat(x, y)[0]; }
template <class T> AI T d_subsat(T a, T b) { typedef T V __attribute__((ext_vector_type(1))); V x = a, y = b; return __builtin_elementwise_sub_sat(x, y)[0]; }
'''
SC = ["f32", "f64", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"]
BITS = {t: int(t[1:]) for t in SC}
MYOPT = OPT + ["-ffp-contract=off"]

def generate():
    P = Probes(PRE); R = range
    LENS = {"f32": [1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 32], "f64": [1, 2, 3, 4, 5, 8, 9, 16], "i8": [1, 2, 3, 4, 8, 16, 17, 32, 64], "u8": [1, 2, 4, 5, 8, 16, 32, 64], "i16": [1, 2, 3, 4, 8, 9, 16, 32],
            "u16": [1, 2, 4, 8, 12, 16, 32], "i32": [1, 2, 3, 4, 5, 8, 9, 16, 32], "u32": [1, 2, 3, 4, 7, 8, 16, 32], "i64": [1, 2, 3, 4, 5, 8, 9, 16], "u64": [1, 2, 3, 4, 6, 8, 16]}
    for T in SC:
        fl = T[0] == "f"; sg = T[0] == "i"; B = BITS[T]; U = "u%d" % B; I = "i%d" % B
        nan = "0x%s%s" % ("F" * (B // 4), "u" if B < 64 else "ull")
        HB = "((%s)1 << %d)" % (U, B - 1)
        for N in LENS[T]:
            V = lambda p: "LD<%s, %d>(%s)" % (T, N, p)
            sig = "%s* o, const %s* a, const %s* b, const %s* c, const %s* d, %s s" % ((T,) * 6)
            def op(name, call, each, grp=None, mode="X"):
                each = each if callable(each) else (lambda k, e=each: e.replace("@", str(k)))
                P.add(mode, "%s_%s_%d" % (name, T, N), sig, "auto x = %s; auto y = %s; auto z = %s; auto w = %s; (void)x, (void)y, (void)z, (void)w; OUT<%s, %d>(o, %s);" % (V("a"), V("b"), V("c"), V("d"), T, N, call),
                      " ".join("o[%d] = %s;" % (k, each(k)) for k in R(N)), group=grp or name)
            def mk(name, call, each, grp=None, mode="X"):
                """mask results: every lane all ones or all zeroes"""
                P.add(mode, "%s_%s_%d" % (name, T, N), sig.replace("%s* o" % T, "%s* o" % U), "auto x = %s; auto y = %s; auto z = %s; auto w = %s; (void)x, (void)y, (void)z, (void)w; OUTM<%s, %d>(o, %s);" % (V("a"), V("b"), V("c"), V("d"), T, N, call),
                      " ".join("o[%d] = (%s) ? (%s)%s : (%s)0;" % (k, each.replace("@", str(k)), U, nan, U) for k in R(N)), group=grp or name)
            def sc(name, call, ex, ret="bool", grp=None):
                P.add("X", "%s_%s_%d" % (name, T, N), sig.replace("%s* o" % T, "%s* o" % U), "auto x = %s; auto y = %s; (void)x, (void)y; return %s;" % (V("a"), V("b"), call), "return %s;" % ex, ret=ret, group=grp or name)
            A, Bb, S = "a[@]", "b[@]", "s"
            def d2(f): return "d_%s<%s>(a[@], b[@])" % (f, T)
            arith = [("add", "+"), ("sub", "-"), ("mul", "*"), ("div", "/")] + ([] if fl else [("mod", "%")])
            for nm, o in arith:
                op(nm, "x %s y" % o, d2(nm)); op(nm + "VS", "x %s s" % o, "d_%s<%s>(a[@], s)" % (nm, T)); op(nm + "SV", "s %s y" % o, "d_%s<%s>(s, b[@])" % (nm, T))
                op(nm + "C", "(x %s= y)" % o, d2(nm))
            op("neg", "-x", "d_neg<%s>(a[@], a[@])" % T)
            op("fnadd", "add(x, y)", d2("add")); op("fnadd3", "add(x, y, z)", "d_add<{0}>(a[@], d_add<{0}>(b[@], c[@]))".format(T) if not fl else "a[@] + (b[@] + c[@])"); op("fnsub", "sub(x, y)", d2("sub")); op("fnmul", "mul(x, y)", d2("mul")); op("fndiv", "div(x, y)", d2("div")); op("fnneg", "neg(x)", "d_neg<%s>(a[@], a[@])" % T)
            op("sqr", "sqr(x)", "d_mul<%s>(a[@], a[@])" % T); op("sqrdiff", "sqrdiff(x, y)", "d_mul<{0}>(d_sub<{0}>(a[@], b[@]), d_sub<{0}>(a[@], b[@]))".format(T))
            if fl: op("pow3", "pow3(x)", "(a[@] * a[@]) * a[@]"); op("cub", "cub(x)", "(a[@] * a[@]) * a[@]"); op("pow4", "pow4(x)", "(a[@] * a[@]) * (a[@] * a[@])"); op("pow5", "pow5(x)", "((a[@] * a[@]) * (a[@] * a[@])) * a[@]")
            if fl: op("recip", "reciprocal(x)", "(%s)1 / a[@]" % T)
            fm = "d_{1}<{0}>(d_mul<{0}>(a[@], b[@]), c[@])"
            op("fmadd", "fmadd(x, y, z)", fm.format(T, "add")); op("fmsub", "fmsub(x, y, z)", fm.format(T, "sub"))
            op("mix", "mix(x, y, z)", "d_add<{0}>(d_mul<{0}>(a[@], d_sub<{0}>(c[@], b[@])), b[@])".format(T))
            if fl: op("horner", "horner(x, y, z, w)", "(d[@] * a[@] + c[@]) * a[@] + b[@]"); op("hornere", "horner_even(x, y, z, w)", "(d[@] * (a[@] * a[@]) + c[@]) * (a[@] * a[@]) + b[@]"); op("hornero", "horner_odd(x, y, z, w)", "((d[@] * (a[@] * a[@]) + c[@]) * (a[@] * a[@]) + b[@]) * a[@]")
            if N % 2 == 0:
                op("addsub", "addsub(x, y)", lambda k: "d_%s<%s>(a[%d], b[%d])" % (("add", "sub")[k % 2], T, k, k)); op("subadd", "subadd(x, y)", lambda k: "d_%s<%s>(a[%d], b[%d])" % (("sub", "add")[k % 2], T, k, k))
                if fl: op("negeven", "negeven(x)", lambda k: ("-a[%d]" if k % 2 == 0 else "a[%d]") % k); op("negodd", "negodd(x)", lambda k: ("-a[%d]" if k % 2 else "a[%d]") % k)
            # bitwise, on the bit pattern for floats
            for nm, o in (("and", "&"), ("or", "|"), ("xor", "^")):
                e = "BC<{0}>(({1})(BC<{1}>({2}) {3} BC<{1}>({4})))"
                op("bit" + nm, "x %s y" % o, e.format(T, U, A, o, Bb)); op("bit" + nm + "VS", "x %s s" % o, e.format(T, U, A, o, S)); op("bit" + nm + "C", "(x %s= y)" % o, e.format(T, U, A, o, Bb)); op("bitfn" + nm, "bitwise%s(x, y)" % nm, e.format(T, U, A, o, Bb))
            op("bitnot", "~x", "BC<{0}>(({1})~BC<{1}>(a[@]))".format(T, U)); op("andnot", "andnot(x, y)", "BC<{0}>(({1})(~BC<{1}>(a[@]) & BC<{1}>(b[@])))".format(T, U)) if False else op("bitandnot", "bitwiseandnot(x, y)", "BC<{0}>(({1})(BC<{1}>(a[@]) & ({1})~BC<{1}>(b[@])))".format(T, U))
            if not fl:
                op("shl", "x << y", d2("shl")); op("shr", "x >> y", d2("shr")); op("shlC", "(x <<= y)", d2("shl")); op("shrC", "(x >>= y)", d2("shr"))
                for k in (1, B // 2, B - 1): op("shl%d" % k, "x << %du" % k, "d_shl<%s>(a[@], %d)" % (T, k), grp="shl_imm"); op("shr%d" % k, "x >> %du" % k, "d_shr<%s>(a[@], %d)" % (T, k), grp="shr_imm")
                op("shlS", "x << u", None or "d_shl<%s>(a[@], (%s)u)" % (T, T)) if False else None
                op("satadd", "satadd(x, y)", "d_addsat<%s>(a[@], b[@])" % T); op("satsub", "satsub(x, y)", "d_subsat<%s>(a[@], b[@])" % T)
                if not sg:
                    for k in (1, 3, B - 1): op("rol%d" % k, "rol(x, %d)" % k, "d_or<{0}>(d_shl<{0}>(a[@], {1}), d_shr<{0}>(a[@], {2}))".format(T, k, B - k), grp="rol"); op("ror%d" % k, "ror(x, %d)" % k, "d_or<{0}>(d_shr<{0}>(a[@], {1}), d_shl<{0}>(a[@], {2}))".format(T, k, B - k), grp="ror")
            if B > 8: op("swapbytes", "swapbyteorder(x)", "BC<{0}>(__builtin_bswap{1}(BC<{2}>(a[@])))".format(T, B, U))
            if fl:
                op("copysign", "copysign(x, y)", "BC<{0}>(({1})((BC<{1}>(a[@]) & ({1})~{2}) | (BC<{1}>(b[@]) & {2})))".format(T, U, HB))
                op("mulsign", "mulsign(x, y)", "BC<{0}>(({1})(BC<{1}>(a[@]) ^ (BC<{1}>(b[@]) & {2})))".format(T, U, HB))
            # selection
            for nm, o in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">="), ("eq", "=="), ("ne", "!=")):
                mk(nm, "x %s y" % o, "a[@] %s b[@]" % o); mk(nm + "VS", "x %s s" % o, "a[@] %s s" % o); op("sel" + nm, "select(x %s y, z, w)" % o, "d_sel(a[@] %s b[@], c[@], d[@])" % o)
            op("selVS", "select(x < y, z, s)", "d_sel(a[@] < b[@], c[@], s)", grp="sel_scalar"); op("selSV", "select(x < y, s, z)", "d_sel(a[@] < b[@], s, c[@])", grp="sel_scalar"); op("selSS", "select(x < y, vec<{0}, {1}>(s), vec<{0}, {1}>(({0})7))".format(T, N), "a[@] < b[@] ? s : (%s)7" % T, grp="sel_scalar")
            for nm, o in (("and", "&"), ("or", "|"), ("xor", "^")):
                mk("m" + nm, "(x < y) %s (z < w)" % o, "(a[@] < b[@]) %s (c[@] < d[@])" % o, grp="mask_" + nm)
            mk("mland", "(x < y) && (z < w)", "(a[@] < b[@]) & (c[@] < d[@])"); mk("mlor", "(x < y) || (z < w)", "(a[@] < b[@]) | (c[@] < d[@])"); mk("mnot", "!(x < y)", "!(a[@] < b[@])"); mk("mcompl", "~(x < y)", "!(a[@] < b[@])")
            mk("inrange", "inrange(x, y, z)", "(a[@] >= b[@]) & (a[@] <= c[@])"); mk("iszero", "iszero(x)", "a[@] == (%s)0" % T)
            for nm, o in (("equal", "=="), ("notequal", "!="), ("less", "<"), ("greater", ">"), ("lessorequal", "<="), ("greaterorequal", ">=")): mk("f" + nm, "%s(x, y)" % nm, "a[@] %s b[@]" % o)
            if fl:
                inf = "__builtin_inf%s()" % ("f" if B == 32 else "")
                mk("isnan", "isnan(x)", "a[@] != a[@]"); mk("isinf", "isinf(x)", "(a[@] == {0}) | (a[@] == -{0})".format(inf)); mk("isfinite", "isfinite(x)", "!(a[@] != a[@]) & !((a[@] == {0}) | (a[@] == -{0}))".format(inf))
                mk("isneg", "isnegative(x)", "BC<{0}>(a[@]) >> {1}".format(U, B - 1)) if False else None
            # min/max family
            op("min", "min(x, y)", d2("min")); op("max", "max(x, y)", d2("max")); op("minVS", "min(x, s)", "d_min<%s>(a[@], s)" % T); op("maxSV", "max(s, y)", "d_max<%s>(s, b[@])" % T)
            op("abs", "abs(x)", "d_abs<%s>(a[@])" % T); op("absmin", "absmin(x, y)", "d_min<{0}>(d_abs<{0}>(a[@]), d_abs<{0}>(b[@]))".format(T)); op("absmax", "absmax(x, y)", "d_max<{0}>(d_abs<{0}>(a[@]), d_abs<{0}>(b[@]))".format(T))
            op("clamp", "clamp(x, y, z)", "d_max<{0}>(d_min<{0}>(a[@], c[@]), b[@])".format(T)); op("clamp2", "clamp(x, y)", "d_max<{0}>(d_min<{0}>(a[@], b[@]), {1})".format(T, "(%s)0" % T))
            sc("any", "any(x < y)", " | ".join("(a[%d] < b[%d])" % (k, k) for k in R(N))); sc("all", "all(x < y)", " & ".join("(a[%d] < b[%d])" % (k, k) for k in R(N)))
        for N in [n for n in LENS[T] if n <= 16]:
            for Q in SC:
                if Q == T: continue
                if N not in (1, 3, 4, 8, 16): continue
                P.add("X", "conv_%s_%s_%d" % (T, Q, N), "%s* o, const %s* a" % (Q, T), "OUT<%s, %d>(o, vec<%s, %d>(LD<%s, %d>(a)));" % (Q, N, Q, N, T, N), " ".join("o[%d] = (%s)a[%d];" % (k, Q, k) for k in R(N)), group="convert")
    return P

if __name__ == "__main__": print(len(generate().items))

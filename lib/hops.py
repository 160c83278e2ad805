"""S04: probes for horizontal reductions. The definition is the left-to-right scalar fold; sums and products of floating-point
lanes are compared over the reals (the order of summation is not part of the property), integers and bit operations exactly,
minima and maxima as functions of the set of lanes."""
from flowrun import *
from laneops import PRE as LPRE, SC, BITS, MYOPT

PRE = LPRE + r"""
#include <kfr/simd/horizontal.hpp>
template <class T> AI T d_idiv(T a, unsigned n) { typedef T V __attribute__((ext_vector_type(1))); V x = a; V y = (T)n; return (x / y)[0]; }
template <class T> AI T d_sqrt(T a) { return sizeof(T) == 4 ? (T)__builtin_sqrtf((float)a) : (T)__builtin_sqrt((double)a); }
#include <kfr/simd/complex.hpp>
template <class T, size_t N> AI vec<complex<T>, N> LDC(const T* p) { vec<complex<T>, N> r; std::memcpy(&r.v, p, sizeof(T) * 2 * N); return r; }
template <class T> struct CX { T r, i; };
template <class T> AI CX<T> cxa(CX<T> a, CX<T> b) { return { a.r + b.r, a.i + b.i }; }
template <class T> AI CX<T> cxm(CX<T> a, CX<T> b) { return { a.r * b.r - a.i * b.i, a.r * b.i + a.i * b.r }; }
"""

def generate():
    P = Probes(PRE)
    for T in SC:
        fl = T[0] == "f"; B = BITS[T]; U = "u%d" % B
        full = 512 // B
        LENS = sorted({1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, full // 2, full, full + 1, 2 * full})
        for N in LENS:
            if N > 64: continue
            sig = "const %s* a, const %s* b" % (T, T)
            fold = lambda f, e="a[%d]", N=N: (lambda L: __import__("functools").reduce(lambda x, y: f % (x, y), L))([e % k if e.count("%") == 1 else e % ((k,) * e.count("%")) for k in range(N)])
            def h(name, call, ex, mode, grp=None):
                P.add(mode, "%s_%s_%d" % (name, T, N), sig, "auto x = LD<%s, %d>(a); auto y = LD<%s, %d>(b); (void)x, (void)y; return %s;" % (T, N, T, N, call), "return %s;" % ex, ret=T, group=grp or name)
            ar = "P" if fl else "X"
            add = "(%s + %s)" if fl else "d_add<" + T + ">(%s, %s)"; mul = "(%s * %s)" if fl else "d_mul<" + T + ">(%s, %s)"
            h("hadd", "hadd(x)", fold(add), ar); h("hsum", "hsum(x)", fold(add), ar)
            h("hmul", "hmul(x)", fold(mul), ar); h("hproduct", "hproduct(x)", fold(mul), ar)
            h("hdot", "hdot(x, y)", fold(add, mul.replace("%s", "a[%d]", 1).replace("%s", "b[%d]", 1)), ar)
            if fl: h("havg", "havg(x)", "(%s) / (%s)%d" % (fold(add), T, N), ar)
            else: h("havg", "havg(x)", "d_idiv<%s>(%s, %d)" % (T, fold(add), N), "X")
            if fl: h("hrms", "hrms(x)", "d_sqrt<%s>((%s) / (%s)%d)" % (T, fold(add, mul.replace("%s", "a[%d]")), T, N), ar)
            for o, c in (("and", "&"), ("or", "|"), ("xor", "^")):
                h("hbitwise" + o, "hbitwise%s(x)" % o, "BC<%s>((%s)%s)" % (T, U, fold("(%s " + c + " %s)", "BC<" + U + ">(a[%d])")), "X")
            h("hmin", "hmin(x)", fold("d_min<" + T + ">(%s, %s)"), "M"); h("hmax", "hmax(x)", fold("d_max<" + T + ">(%s, %s)"), "M")
    for T in ("f32", "f64"):
        for N in (1, 2, 3, 4, 5, 7, 8, 12, 16):
            sig = "%s* o, const %s* a, const %s* b" % (T, T, T)
            def hc(name, call, ex):
                P.add("P", "%sC_%s_%d" % (name, T, N), sig, "auto x = LDC<{0}, {1}>(a); auto y = LDC<{0}, {1}>(b); (void)y; complex<{0}> r = {2}; o[0] = r.real(); o[1] = r.imag();".format(T, N, call), "CX<%s> r = %s; o[0] = r.r; o[1] = r.i;" % (T, ex), group=name + "_complex")
            fold = lambda f, e: __import__("functools").reduce(lambda x, y: f % (x, y), [e % ((k,) * e.count("%")) for k in range(N)])
            A, B = "CX<%s>{a[2 * %%d], a[2 * %%d + 1]}" % T, "CX<%s>{b[2 * %%d], b[2 * %%d + 1]}" % T
            hc("hadd", "hadd(x)", fold("cxa(%s, %s)", A)); hc("hsum", "hsum(x)", fold("cxa(%s, %s)", A)); hc("hdot", "hdot(x, y)", fold("cxa(%s, %s)", "cxm(%s, %s)" % (A, B)))
            if N <= 5: hc("hmul", "hmul(x)", fold("cxm(%s, %s)", A)); hc("hproduct", "hproduct(x)", fold("cxm(%s, %s)", A))
    return P

if __name__ == "__main__": print(len(generate().items))

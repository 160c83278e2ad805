"""S05: probes for vector memory accesses. Every operation is defined by scalar accesses."""
from flowrun import *
import random

PRE = r'''#include <kfr/simd/vec.hpp>
#include <kfr/simd/read_write.hpp>
#include <kfr/simd/complex.hpp>
#include <kfr/base/univector.hpp>
#include <array>
#include <cstring>
#include "src/dft/ft.hpp"
using namespace kfr;
#define AI __attribute__((always_inline)) inline
template <class T, size_t N> AI vec<T, N> LD(const void* p) { vec<T, N> r; std::memcpy(&r.v, p, sizeof(T) * N); return r; }
template <class T, size_t N> AI void ST(void* o, const vec<T, N>& x) { std::memcpy(o, &x.v, sizeof(T) * N); }
template <class T, size_t N, class R> AI void OUT(T* o, const R& r) { static_assert(std::is_same_v<std::decay_t<R>, vec<T, N>>, "result type"); ST(o, r); }
'''
SC = {"f32": "f32", "f64": "f64", "i8": "i8", "u8": "u8", "i16": "i16", "u16": "u16", "i32": "i32", "u32": "u32", "i64": "i64", "u64": "u64",
      "c32": "complex<f32>", "c64": "complex<f64>"}

FLAGS = ["-I" + REPO]

def generate():
    P = Probes(PRE); R = range
    def rd(name, T, N, call, addr, extra="", mode="Xmn", two=False):
        """N elements read; addr(k): index expression of the element in lane k"""
        t = SC[T]
        P.add(mode, "%s_%s_%d" % (name, T, N), "%s* o, const %s* p%s" % (t, t, extra), "OUT<%s, %d>(o, %s);" % (t, N, call),
              " ".join("o[%d] = p[%s];" % (k, addr(k)) for k in R(N)), group=name)
    def wr(name, T, N, call, addr, extra="", mode="Xmns"):
        t = SC[T]
        P.add(mode, "%s_%s_%d" % (name, T, N), "%s* o, const %s* p%s" % (t, t, extra), "auto v = LD<%s, %d>(p); %s;" % (t, N, call),
              " ".join("o[%s] = p[%d];" % (addr(k), k) for k in R(N)), group=name)
    LENS = {"f32": [1, 2, 3, 4, 5, 7, 8, 12, 16, 17, 24, 32, 64], "f64": [1, 2, 3, 4, 5, 6, 8, 9, 12, 16, 32], "i8": [1, 2, 3, 4, 8, 16, 24, 32, 64], "u8": [1, 2, 4, 5, 7, 8, 16, 32, 64], "i16": [1, 2, 3, 4, 6, 8, 16, 32],
            "u16": [1, 2, 3, 4, 8, 12, 16, 32], "i32": [1, 2, 3, 4, 5, 8, 12, 16, 32], "u32": [1, 2, 4, 7, 8, 16], "i64": [1, 2, 3, 4, 8, 16], "u64": [1, 2, 3, 4, 6, 8, 16], "c32": [1, 2, 3, 4, 5, 8, 16, 32], "c64": [1, 2, 3, 4, 6, 8, 16]}
    for T in SC:
        t = SC[T]; cx = T[0] == "c"
        for N in LENS[T]:
            one = lambda k: str(k)
            rd("read", T, N, "read<%d>(p)" % N, one); rd("readA", T, N, "read<%d, true>(p)" % N, one, mode="Xm")
            rd("vecctor", T, N, "(vec<%s, %d>(p, cunaligned))" % (t, N), one); rd("vecctorA", T, N, "(vec<%s, %d>(p, caligned))" % (t, N), one, mode="Xm")
            wr("write", T, N, "write(o, v)", one); wr("writeA", T, N, "write<true>(o, v)", one, mode="Xms")
            wr("vecwrite", T, N, "v.write(o)", one); wr("vecwriteA", T, N, "v.write(o, caligned)", one, mode="Xms")
            rd("offread", T, N, "read<%d>(p + i)" % N, lambda k: "i + %d" % k, ", size_t i"); wr("offwrite", T, N, "write(o + i, v)", lambda k: "i + %d" % k, ", size_t i")
            P.add("Xm", "tovec_%s_%d" % (T, N), "%s* o, const std::array<%s, %d>* p" % (t, t, N), "OUT<%s, %d>(o, to_vec(*p));" % (t, N), " ".join("o[%d] = (*p)[%d];" % (k, k) for k in R(N)), group="to_vec")
            # univector element access
            if N <= 16:
                rd("uvget", T, N, "get_elements(*u, shape<1>{ i }, axis_params_v<0, %d>)" % N, lambda k: "i + %d" % k, ", size_t i, const univector_ref<const %s>* u_" % t, mode="X") if False else None
            if N <= 16:
                for ix in (("u32", "i32", "u64") if T in ("f32", "i16", "c64") else ("u32",)):
                    P.add("Xm", "gather_%s_%s_%d" % (ix, T, N), "%s* o, const %s* p, const %s* q" % (t, t, ix), "OUT<%s, %d>(o, gather(p, LD<%s, %d>(q)));" % (t, N, ix, N), " ".join("o[%d] = p[q[%d]];" % (k, k) for k in R(N)), group="gather")
                    P.add("Xms", "scatter_%s_%s_%d" % (ix, T, N), "%s* o, const %s* p, const %s* q" % (t, t, ix), "scatter(o, LD<%s, %d>(q), LD<%s, %d>(p));" % (ix, N, t, N), " ".join("o[q[%d]] = p[%d];" % (k, k) for k in R(N)), group="scatter")
                    for g in (2, 3, 4):
                        if N * g > 16 or cx and g > 2: continue
                        P.add("Xm", "gatherG%d_%s_%s_%d" % (g, ix, T, N), "%s* o, const %s* p, const %s* q" % (t, t, ix), "OUT<%s, %d>(o, gather<%d>(p, LD<%s, %d>(q)));" % (t, N * g, g, ix, N), " ".join("o[%d] = p[(size_t)%d * q[%d] + %d];" % (k * g + j, g, k, j) for k in R(N) for j in R(g)), group="gather_group")
                        P.add("Xms", "scatterG%d_%s_%s_%d" % (g, ix, T, N), "%s* o, const %s* p, const %s* q" % (t, t, ix), "scatter<%d>(o, LD<%s, %d>(q), LD<%s, %d>(p));" % (g, ix, N, t, N * g), " ".join("o[(size_t)%d * q[%d] + %d] = p[%d];" % (g, k, j, k * g + j) for k in R(N) for j in R(g)), group="scatter_group")
                rd("gstride", T, N, "gather_stride<%d>(p, s)" % N, lambda k: "%d * s" % k, ", size_t s"); wr("sstride", T, N, "scatter_stride(o, v, s)", lambda k: "%d * s" % k, ", size_t s")
                for g in (2, 3, 4):
                    if N * g > 24 or cx and g > 2: continue
                    wr("sstrideG%d" % g, T, N * g, "scatter_stride<%d>(o, v, s)" % g, lambda k: "%d * %d * s + %d" % (k // g, g, k % g), ", size_t s")
                for s in (1, 2, 3, 7): rd("gstridec%d" % s, T, N, "gather_stride<%d, %d>(p)" % (N, s), lambda k: str(k * s))
            if 2 <= N <= 8:
                rnd = random.Random(N); ix = [rnd.randrange(40) for _ in R(N)]
                rd("gatherc", T, N, "gather<%s>(p)" % ", ".join(map(str, ix)), lambda k: str(ix[k]))
                rd("gatherv", T, N, "gather(p, %s)" % ", ".join("i%d" % k for k in R(N)), lambda k: "i%d" % k, "".join(", size_t i%d" % k for k in R(N)))
            if not cx and N <= 8:
                for cnt in (1, 2, 3, 4, 8):
                    for g in (1, 2, 4):
                        if cnt * g * N > 32: continue
                        for A in ((False, True) if g * N & (g * N - 1) == 0 else (False,)):
                            md = "" if A else "n"; nm = "_%d_%d%s" % (cnt, g, "A" if A else ""); a = "true" if A else "false"
                            f = lambda k, W=N * g: "%d * s * %d + %d" % (g, k // W, k % W)
                            rd("rgroup" + nm, T, cnt * N * g, "(read_group<%d, %d, %d, %s>(p, s))" % (cnt, N, g, a), f, ", size_t s", mode="Xm" + md)
                            wr("wgroup" + nm, T, cnt * N * g, "(write_group<%d, %d, %d, %s>(o, s, v))" % (cnt, N, g, a), f, ", size_t s", mode="Xms" + md)
            if not cx and N <= 32:
                for k in sorted({0, 1, N // 2, N - 1, N}):
                    val = {"f32": "0xFFFFFFFFu", "f64": "0xFFFFFFFFFFFFFFFFull"}.get(T, "~0ull")
                    it = {"f32": "u32", "f64": "u64"}.get(T, t)
                    P.add("X", "pmask%d_%s_%d" % (k, T, N), "%s* o" % it, "OUT<%s, %d>((%s*)o, partial_mask<%s, %d>(%d));" % (t, N, t, t, N, k), " ".join("o[%d] = (%s)%s;" % (j, it, val if j < k else "0") for j in R(N)), group="partial_mask") if T in ("f32", "f64", "i32", "u8", "i64") else None
    # complex block access of the FFT kernels
    for T in ("f32", "f64"):
        c = "complex<%s>" % T; a = "%s* o, const %s* p" % (c, c)
        def cr(name, N, call, addr, extra="", mode="Xmn"): P.add(mode, "%s_%s_%d" % (name, T, N), a + extra, "OUT<%s, %d>((%s*)o, %s);" % (T, 2 * N, T, call), " ".join("o[%d] = p[%s];" % (k, addr(k)) for k in R(N)), group=name)
        def cw(name, N, call, addr, extra="", mode="Xmns"): P.add(mode, "%s_%s_%d" % (name, T, N), a + extra, "auto v = LD<%s, %d>(p); %s;" % (T, 2 * N, call), " ".join("o[%s] = p[%d];" % (addr(k), k) for k in R(N)), group=name)
        for N in (1, 2, 3, 4, 5, 6, 8, 16):
            p2 = N & (N - 1) == 0
            for A in ((False, True) if p2 else (False,)):
                al = "true" if A else "false"; n = "" if A else "n"; x = "A" if A else ""
                cr("cread" + x, N, "(intrinsics::cread<%d, %s>(p))" % (N, al), str, mode="Xm" + n); cw("cwrite" + x, N, "(intrinsics::cwrite<%d, %s>(o, v))" % (N, al), str, mode="Xms" + n)
                for cnt in (2, 4):
                    if N > 8: continue
                    cr("cread_group%d%s" % (cnt, x), N * cnt, "(intrinsics::cread_group<%d, %d, %s>(p, s))" % (cnt, N, al), lambda k: "s * %d + %d" % (k // N, k % N), ", size_t s", mode="Xm" + n)
                    cw("cwrite_group%d%s" % (cnt, x), N * cnt, "(intrinsics::cwrite_group<%d, %d, %s>(o, s, v))" % (cnt, N, al), lambda k: "s * %d + %d" % (k // N, k % N), ", size_t s", mode="Xms" + n)
                # split form: real parts first, imaginary parts after them
                if p2 and N > 1:
                    P.add("Xm" + n, "cread_split%s_%s_%d" % (x, T, N), "%s* o, const %s* p" % (T, c), "OUT<%s, %d>(o, (intrinsics::cread_split<%d, %s, true>(p)));" % (T, 2 * N, N, al), " ".join("o[%d] = p[%d].real(); o[%d] = p[%d].imag();" % (k, k, N + k, k) for k in R(N)), group="cread_split")
                    P.add("Xms" + n, "cwrite_split%s_%s_%d" % (x, T, N), "%s* o, const %s* p" % (c, T), "auto v = LD<%s, %d>(p); intrinsics::cwrite_split<%d, %s, true>(o, v);" % (T, 2 * N, N, al), " ".join("o[%d] = %s(p[%d], p[%d]);" % (k, c, k, N + k) for k in R(N)), group="cwrite_split")
                    cr("cread_nosplit" + x, N, "(intrinsics::cread_split<%d, %s, false>(p))" % (N, al), str, mode="Xm" + n); cw("cwrite_nosplit" + x, N, "(intrinsics::cwrite_split<%d, %s, false>(o, v))" % (N, al), str, mode="Xms" + n)
            for s in (2, 3, 5, 16):
                cr("cgatherc%d" % s, N, "(intrinsics::cgather<%d, %d>(p))" % (N, s), lambda k: str(k * s), mode="Xm"); cw("cscatterc%d" % s, N, "(intrinsics::cscatter<%d, %d>(o, v))" % (N, s), lambda k: str(k * s))
            cr("cgatherc1", N, "(intrinsics::cgather<%d, 1>(p))" % N, str, mode="Xm") if p2 else None
            cw("cscatterc1", N, "(intrinsics::cscatter<%d, 1>(o, v))" % N, str)
            cr("cgather", N, "(intrinsics::cgather<%d>(p, s))" % N, lambda k: "%d * s" % k, ", size_t s", mode="Xm"); cw("cscatter", N, "(intrinsics::cscatter<%d>(o, s, v))" % N, lambda k: "%d * s" % k, ", size_t s")
            cr("cgatherpos", N, "([&] { size_t q = i; auto r = intrinsics::cgather<%d>(p, q, s); return r; }())" % N, lambda k: "i + %d * s" % k, ", size_t i, size_t s", mode="Xm")
            if N <= 8:
                P.add("Xm", "cgatheridx_%s_%d" % (T, N), a + ", const u32* q", "OUT<%s, %d>((%s*)o, intrinsics::cgather(p, LD<u32, %d>(q)));" % (T, 2 * N, T, N), " ".join("o[%d] = p[q[%d]];" % (k, k) for k in R(N)), group="cgather_idx")
                P.add("Xms", "cscatteridx_%s_%d" % (T, N), a + ", const u32* q", "intrinsics::cscatter(o, LD<u32, %d>(q), LD<%s, %d>(p));" % (N, T, 2 * N), " ".join("o[q[%d]] = p[%d];" % (k, k) for k in R(N)), group="cscatter_idx")
    return P

"""S01: probes for lane rearrangements. Every operation is defined here by a list of source lanes."""
from flowrun import *

PRE = r'''#include <kfr/simd/vec.hpp>
#include <kfr/simd/shuffle.hpp>
#include <kfr/simd/digitreverse.hpp>
#include <kfr/simd/complex.hpp>
#include <kfr/simd/operators.hpp>
#include <cstring>
using namespace kfr;
#define AI __attribute__((always_inline)) inline
template <class T, size_t N> AI vec<T, N> LD(const void* p) { vec<T, N> r; std::memcpy(&r.v, p, sizeof(T) * N); return r; }
template <class T, size_t N> AI void ST(void* o, const vec<T, N>& x) { std::memcpy(o, &x.v, sizeof(T) * N); }
template <class V> struct VN; template <class T, size_t N> struct VN<vec<T, N>> { static constexpr size_t n = N; using t = T; };
template <class T, size_t N, class R> AI void OUT(T* o, const R& r) { static_assert(std::is_same_v<std::decay_t<R>, vec<T, N>>, "result type"); ST(o, r); }
'''
SC = {"f32": "f32", "f64": "f64", "i8": "i8", "u8": "u8", "i16": "i16", "u16": "u16", "i32": "i32", "u32": "u32", "i64": "i64", "u64": "u64",
      "c32": "complex<f32>", "c64": "complex<f64>"}
SUB = {"c32": ("f32", 2), "c64": ("f64", 2)}

def log2(n): return n.bit_length() - 1
def p2(n): return n & (n - 1) == 0
def prevp2(n):
    r = 1
    while r * 2 <= n: r *= 2
    return r
def rev(x, n, d):
    r = 0
    for _ in range(n): r = r * d + x % d; x //= d
    return r

def grp(ix, g): return [i * g + k for i in ix for k in range(g)]

class Gen:
    def __init__(self): self.P = Probes(PRE)
    def op(self, name, T, ins, call, lanes, u=False):
        """ins: lane counts of inputs a,b,c,d; call: expression over a,b,.. ; lanes: source lane in the concatenation of the inputs, None = unspecified"""
        t = SC[T]; st, w = SUB.get(T, (T, 1))
        nm = "abcdefgh"[:len(ins)]
        args = "%s* o, " % t + ", ".join("const %s* p%s" % (t, x) for x in nm)
        src = [(x, i) for x, n in zip(nm, ins) for i in range(n)]
        pr = "".join("auto %s = LD<%s, %d>(p%s); " % (x, t, n, x) for x, n in zip(nm, ins)) + "OUT<%s, %d>(o, %s);" % (t, len(lanes), call)
        sp = "".join("std::memcpy(&o[%d], &p%s[%d], sizeof(%s)); " % (k, src[l][0], src[l][1], t) for k, l in enumerate(lanes) if l is not None)
        self.P.add("Xu" if u or None in lanes else "X", "%s_%s_%sto%d" % (name, T, "x".join(map(str, ins)), len(lanes)), args, pr, sp, group=name)

def generate():
    g = Gen(); op = g.op
    ALL = list(SC); CORE = ["f32", "f64", "i16", "c32"]
    LENS = {"f32": [1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 32, 64], "f64": [1, 2, 3, 4, 5, 6, 8, 12, 16, 32], "i8": [1, 3, 4, 8, 16, 24, 32, 64], "u8": [2, 7, 16, 32],
            "i16": [1, 2, 4, 6, 8, 16, 32], "u16": [3, 8, 16], "i32": [1, 2, 3, 4, 8, 12, 16, 32], "u32": [4, 7, 16], "i64": [1, 2, 3, 4, 8, 16], "u64": [4, 8],
            "c32": [1, 2, 3, 4, 5, 8, 16, 32], "c64": [1, 2, 3, 4, 8, 16]}
    R = range
    for T in ALL:
        t = SC[T]
        for N in LENS[T]:
            I = list(R(N)); h = N // 2; q = prevp2(N - 1) if N > 1 else 1
            full = T in CORE or N in (3, 4, 8, 16)
            if N > 1:
                op("low", T, [N], "low(a)", I[:q]); op("high", T, [N], "high(a)", I[q:])
                op("lowhalf", T, [N], "lowhalf(a)", I[:h]); op("highhalf", T, [N], "highhalf(a)", I[h:])
                op("reverse", T, [N], "reverse(a)", I[::-1])
                for k in sorted({1, N - 1, h} & set(R(1, N))):
                    op("rotateright%d" % k, T, [N], "rotateright<%d>(a)" % k, [(i - k) % N for i in I])
                    op("rotateleft%d" % k, T, [N], "rotateleft<%d>(a)" % k, [(i + k) % N for i in I])
                    op("rotatetwo%d" % k, T, [N, N], "rotatetwo<%d>(a, b)" % k, [N + N - k + i if i < k else i - k for i in I])
            op("slice", T, [N], "slice<0, %d>(a)" % N, I)
            if N >= 3: op("slice1", T, [N], "slice<1, %d>(a)" % (N - 2), I[1:N - 1]); op("slicetail", T, [N], "slice<%d, 1>(a)" % (N - 1), I[-1:])
            op("slice2", T, [N, N], "slice<%d, %d>(a, b)" % (N - 1 - (N > 2), N), [N - 1 - (N > 2) + i for i in I])
            op("narrow", T, [N], "narrow<%d>(a)" % max(1, N - 1), I[:max(1, N - 1)])
            if N <= 32:
                op("repeat2", T, [N], "repeat<2>(a)", I * 2); op("dup", T, [N], "dup(a)", [i // 2 for i in R(2 * N)])
                op("resizeup", T, [N], "resize<%d>(a)" % (N + 3), [i % N for i in R(N + 3)])
                op("padhigh", T, [N], "padhigh<3>(a)", I + [None] * 3); op("padlow", T, [N], "padlow<2>(a)", [None] * 2 + I)
                op("concat2", T, [N, N], "concat(a, b)", list(R(2 * N))); op("concat2b", T, [N, N], "concat2(a, b)", list(R(2 * N)))
                op("interleave", T, [N, N], "interleave(a, b)", [i // 2 + (N if i & 1 else 0) for i in R(2 * N)])
                op("zip2", T, [N, N], "zip(a, b).flatten()", [i // 2 + (N if i & 1 else 0) for i in R(2 * N)]) if T not in SUB else None
                if N == 1: op("extend", T, [N], "extend<6>(a)", [0] * 6)
                else: op("extend", T, [N], "extend<%d>(a)" % (N + 2), I + [None] * 2)
            if N <= 16:
                op("repeat3", T, [N], "repeat<3>(a)", I * 3); op("concat3", T, [N, N, N], "concat(a, b, c)", list(R(3 * N))); op("concat4", T, [N] * 4, "concat4(a, b, c, d)", list(R(4 * N)))
                op("vecctor", T, [N, N, N], "vec<%s, %d>(a, b, c)" % (t, 3 * N), list(R(3 * N)))
                op("concat5", T, [N] * 5, "concat(a, b, c, d, e)", list(R(5 * N))) if N <= 8 else None
                if T not in SUB: op("zip4", T, [N] * 4, "zip(a, b, c, d).flatten()", [i // 4 + N * (i % 4) for i in R(4 * N)])
            if full:
                for M in {1, 2, N + 1, max(1, N - 1), 2 * N}:
                    if N + M <= 96 and M != N: op("concat12", T, [N, M], "concat(a, b)", list(R(N + M)))
                for M, s, c in {(1, 1, N), (1, 0, 1), (max(1, h), max(1, h), N), (N + 1, 1, N), (2 * N, N - 1, N + 1), (2 * N, 0, 2)}:
                    if N + M <= 64 and s + c <= N + M and c > 0: op("concatslice_%d_%d" % (s, c), T, [N, M], "concat_and_slice<%d, %d>(a, b)" % (s, c), list(R(s, s + c)))
                for M in {1, max(1, h), N}:
                    op("combine", T, [N, M], "combine(a, b)", [N + i if i < M else i for i in I])
                if N > 1: op("resizedn", T, [N], "resize<%d>(a)" % (N - 1), I[:-1])
            if N % 2 == 0:
                op("even", T, [N], "even(a)", I[::2]); op("odd", T, [N], "odd(a)", I[1::2]); op("dupeven", T, [N], "dupeven(a)", [i & ~1 for i in I]); op("dupodd", T, [N], "dupodd(a)", [i | 1 for i in I])
                op("duplow", T, [N], "duplow(a)", [i % h for i in I]); op("duphigh", T, [N], "duphigh(a)", [i % h + h for i in I])
                if N <= 32: op("duphalves", T, [N], "duphalves(a)", I * 2)
                op("swap", T, [N], "swap(a)", [i ^ 1 for i in I])
                op("ihalves", T, [N], "interleavehalves(a)", [i // 2 + (h if i & 1 else 0) for i in I]); op("splitpairs", T, [N], "splitpairs(a)", I[::2] + I[1::2])
                op("blend01", T, [N, N], "blend<0, 1>(a, b)", [i + N * (i & 1) for i in I]); op("blend10", T, [N, N], "blend<1, 0>(a, b)", [i + N * (1 - (i & 1)) for i in I])
                op("permute2", T, [N], "permute<1, 0>(a)", [i ^ 1 for i in I])
                op("part2", T, [N], "part<2, 1>(a)", I[h:])
                op("split2", T, [N], "([&] { vec<%s, %d> l, k; split(a, l, k); return concat(k, l); }())" % (t, h), I[h:] + I[:h])
                if p2(N): op("bitreverse", T, [N], "bitreverse(a)", [rev(i, log2(N), 2) for i in I])
                if N >= 4 and p2(N) and log2(N) % 2 == 0: op("digitreverse4", T, [N], "digitreverse4(a)", [rev(i, log2(N) // 2, 4) for i in I])
            if N % 4 == 0:
                op("evenG2", T, [N], "even<2>(a)", grp(R(0, N // 2, 2), 2)); op("oddG2", T, [N], "odd<2>(a)", grp(R(1, N // 2, 2), 2))
                op("swap4", T, [N], "swap<4>(a)", [i ^ 3 for i in I]); op("part4", T, [N], "part<4, 3>(a)", I[3 * N // 4:])
                op("split4", T, [N], "([&] { vec<%s, %d> p, q, r, s; split(a, p, q, r, s); return concat(s, q, p, r); }())" % (t, N // 4), [k * (N // 4) + i for k in (3, 1, 0, 2) for i in R(N // 4)])
                op("permute4", T, [N], "permute<2, 0, 3, 1>(a)", [i // 4 * 4 + (2, 0, 3, 1)[i % 4] for i in I])
                op("shuffle4", T, [N, N], "shuffle<0, %d, 3, %d>(a, b)" % (N + 1, N + 2), [i // 4 * 4 + (0, N + 1, 3, N + 2)[i % 4] for i in I])
                op("blend4", T, [N, N], "blend<0, 1, 1, 0>(a, b)", [i + N * (0, 1, 1, 0)[i % 4] for i in I])
                op("reverseG2", T, [N], "reverse<2>(a)", grp(list(R(N // 2))[::-1], 2))
                op("permgroups2", T, [N], "permutegroups<2, 1, 0>(a)", grp([i ^ 1 for i in R(N // 2)], 2))
                op("shufgroups2", T, [N, N], "shufflegroups<2, %d, 0>(a, b)" % (N // 2 + 1), grp([i // 2 * 2 + (N // 2 + 1, 0)[i % 2] for i in R(N // 2)], 2))
                op("ilG2", T, [N, N], "interleave<2>(a, b)", grp([i // 2 + (N // 2 if i & 1 else 0) for i in R(N)], 2)) if N <= 32 else None
                op("ihalvesG2", T, [N], "interleavehalves<2>(a)", grp([i // 2 + (N // 4 if i & 1 else 0) for i in R(N // 2)], 2))
                op("splitpairsG2", T, [N], "splitpairs<2>(a)", grp(list(R(0, N // 2, 2)) + list(R(1, N // 2, 2)), 2))
                if p2(N): op("bitreverseG2", T, [N], "bitreverse<2>(a)", grp([rev(i, log2(N // 2), 2) for i in R(N // 2)], 2))
                if p2(N) and N >= 8 and log2(N // 2) % 2 == 0: op("digitrev4G2", T, [N], "digitreverse4<2>(a)", grp([rev(i, log2(N // 2) // 2, 4) for i in R(N // 2)], 2))
            for s in (2, 3, 4, 6, 8, 16):
                if N % s == 0 and N > s and N > 3:
                    w = N // s
                    op("transpose%d" % s, T, [N], "transpose<%d>(a)" % s, [i % w * s + i // w for i in I])
                    op("transinv%d" % s, T, [N], "transposeinverse<%d>(a)" % s, [i % s * w + i // s for i in I])
            for s in (2, 4, 8):
                if N % (2 * s) == 0 and N // 2 > s:
                    w = N // 2 // s
                    op("ctranspose%d" % s, T, [N], "ctranspose<%d>(a)" % s, grp([i % w * s + i // w for i in R(N // 2)], 2))
                    op("ctransinv%d" % s, T, [N], "ctransposeinverse<%d>(a)" % s, grp([i % s * w + i // s for i in R(N // 2)], 2))
            # element access
            op("get", T, [N], "([&] { vec<%s, %d> r; for (size_t i = 0; i < %d; ++i) r[i] = %s(a)[%d - i]; return r; }())" % (t, N, N, "std::as_const", N - 1), I[::-1])
            k = N // 3
            if T not in SUB:
                op("set", T, [N, 1], "([&] { auto r = a; r.set(csize<%d>, b[0]); return r; }())" % k, [N if i == k else i for i in I])
            op("setv", T, [N, 1], "([&] { auto r = a; r[%d] = std::as_const(b)[0]; return r; }())" % k, [N if i == k else i for i in I])
            op("frontback", T, [N], "vec<%s, 2>(std::as_const(a).back(), std::as_const(a).front())" % t, [N - 1, 0])
            op("getc", T, [N], "vec<%s, 2>(a.get(csize<%d>), a.template get<%d>())" % (t, k, N - 1), [k, N - 1])
            op("splat", T, [1], "vec<%s, %d>(std::as_const(a)[0])" % (t, N), [0] * N)
            op("bcast2", T, [2], "broadcast<%d>(std::as_const(a)[0], std::as_const(a)[1])" % N, [i % 2 for i in I]) if T not in SUB else None
            if 2 <= N <= 16: op("list", T, [N], "vec<%s, %d>(%s)" % (t, N, ", ".join("std::as_const(a)[%d]" % i for i in I)), I)
            if T not in SUB:
                op("insertright", T, [N, 1], "insertright(b[0], a)" if False else "insertright<%s, %d>(std::as_const(b)[0], a)" % (t, N), I[1:] + [N])
                op("insertleft", T, [N, 1], "insertleft<%s, %d>(std::as_const(b)[0], a)" % (t, N), [N] + I[:-1])
                op("widen", T, [N, 1], "widen<%d>(a, std::as_const(b)[0])" % (N + 2), I + [N] * 2) if N <= 32 else None
                op("padhighv", T, [N, 1], "padhigh<2>(a, std::as_const(b)[0])", I + [N] * 2) if N <= 32 else None
                op("padlowv", T, [N, 1], "padlow<3>(a, std::as_const(b)[0])", [N] * 3 + I) if N <= 32 else None
                op("fromfn", T, [N], "vec<%s, %d>([&](size_t i) { return %s(std::as_const(a)[%d - i]); })" % (t, N, t, N - 1), I[::-1])
        # vectors of vectors
        if T not in SUB:
            for A, B in ((2, 2), (2, 4), (4, 2), (3, 4), (4, 4), (2, 8), (8, 2)):
                VV = "vec<vec<%s, %d>, %d>" % (t, A, B); n = A * B
                op("column_%d_%d" % (A, B), T, [n], "column<%d>(%s::from_flatten(a))" % (A - 1, VV), [i * A + A - 1 for i in R(B)])
                op("vvreverse_%d_%d" % (A, B), T, [n], "reverse(%s::from_flatten(a)).flatten()" % VV, [i // A * A + A - 1 - i % A for i in R(n)]) if p2(A) else None
                op("vvget_%d_%d" % (A, B), T, [n], "std::as_const(*new (alloca(sizeof(%s))) %s(%s::from_flatten(a)))[%d]" % (VV, VV, VV, B - 1), [n - A + i for i in R(A)]) if False else None
                op("vvelem_%d_%d" % (A, B), T, [n], "([&] { const %s v = %s::from_flatten(a); return vec<%s, %d>(v[%d]); }())" % (VV, VV, t, A, B - 1), list(R(n - A, n)))
                op("vvctor_%d_%d" % (A, B), T, [A] * B, "%s(%s).flatten()" % (VV, ", ".join("abcdefgh"[:B])), list(R(n)))
                if A == B: op("vvtranspose_%d" % A, T, [n], "transpose(%s::from_flatten(a)).flatten()" % VV, [i % A * A + i // A for i in R(n)])
    # hand-written specialisations, as they are listed in the source
    txt = open(os.path.join(REPO, "include/kfr/simd/impl/specializations.hpp")).read()
    for k, m in enumerate(re.finditer(r"vec<(\w+), (\d+)>::shuffle\(\s*csizes_t<([\d,\s]+)>\)", txt)):
        T, N, ix = m.group(1), int(m.group(2)), [int(x) for x in m.group(3).split(",")]
        if T in SC: op("special%d" % k, T, [N], "a.shuffle(csizes<%s>)" % ", ".join(map(str, ix)), ix)
    # arbitrary one- and two-operand shuffles: fixed pseudo-random patterns and every half/lane structured family
    seed = [12345]
    def rnd(n): seed[0] = (seed[0] * 1103515245 + 12345) & 0x7fffffff; return (seed[0] >> 8) % n
    def cs(l): return "csizes<%s>" % ", ".join(map(str, l))
    for T, Ns in (("f32", (2, 3, 4, 6, 8, 16, 32)), ("f64", (2, 3, 4, 8, 16)), ("i32", (4, 8, 16)), ("i16", (8, 16)), ("u8", (4, 16)), ("i64", (2, 4, 8)), ("c32", (2, 4, 8)), ("c64", (2, 3, 4))):
        for N in Ns:
            h = N // 2; k = 0; pats = []; I2 = list(range(N))[::-1]
            for m in (N, h or 1, 2 * N, N - 1 or 1): pats += [[rnd(N) for _ in range(m)] for _ in range(3)]
            if N % 2 == 0 and N >= 4:
                for lo, hi in ((0, h), (h, 0), (0, 0), (h, h)):
                    pats.append([lo + rnd(h) for _ in range(h)] + [hi + rnd(h) for _ in range(h)])
                    p = [rnd(h) for _ in range(h)]; pats.append([lo + x for x in p] + [hi + x for x in p])
                pats.append([h + rnd(h) for _ in range(h)]); pats.append([rnd(h) for _ in range(h)])
                pats.append([(i % h) + h * rnd(2) for i in range(N)]); pats.append([(i % h) + h * rnd(2) for i in range(h)])
                pats.append([i for i in range(h)] + [h + (i ^ 1) for i in range(h)] if h % 2 == 0 else I2)
            for l in pats: op("perm%d" % k, T, [N], "a.shuffle(%s)" % cs(l), l); k += 1
            pats = [[rnd(2 * N) for _ in range(m)] for m in (N, N, N, h or 1, 2 * N)]
            pats += [[i + N * rnd(2) for i in range(N)], [i + N * (i & 1) for i in range(N)], [rnd(N) if i < h else N + rnd(N) for i in range(N)], [N + rnd(N) for _ in range(N)]]
            for l in pats: op("perm2_%d" % k, T, [N, N], "a.shuffle(b, %s)" % cs(l), l); k += 1
    # generated vectors
    P = g.P
    for T in ("f32", "f64", "i32", "u8", "i64"):
        t = SC[T]
        for N in (1, 2, 3, 4, 7, 8, 16):
            for s, d in ((0, 1), (3, 2)):
                P.add("X", "enumerate_%s_%d_%d" % (T, N, s), "%s* o" % t, "OUT<%s, %d>(o, enumerate<%s, %d, %d, %d>());" % (t, N, t, N, s, d), "for (int i = 0; i < %d; ++i) o[i] = %s(%d + i * %d);" % (N, t, s, d))
            P.add("X", "onoff_%s_%d" % (T, N), "%s* o" % t, "OUT<%s, %d>(o, onoff<%s, %d, 1, 2, 5, 9>());" % (t, N, t, N), "for (int i = 0; i < %d; ++i) o[i] = %s(i >= 1 && i < 3 ? 5 : 9);" % (N, t))
            P.add("L" if T[0] == "f" else "X", "enumstep_%s_%d" % (T, N), "%s* o, %s s" % (t, t), "OUT<%s, %d>(o, enumerate(vec_shape<%s, %d>(), s));" % (t, N, t, N), "for (int i = 0; i < %d; ++i) o[i] = %s(%s(i) * s);" % (N, t, t))
    for bits in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 15, 16, 17, 18, 20, 24, 31, 32):
        P.add("X", "bitrevidx_%d" % bits, "u32 x", "return bitreverse<%d>(x & u32(%dull));" % (bits, 2 ** bits - 1), "u32 r = 0; for (int i = 0; i < %d; ++i) r |= ((x >> i) & 1u) << (%d - i); return r;" % (bits, bits - 1), "u32", group="bitrevidx")
        if bits % 2 == 0: P.add("X", "digit4idx_%d" % bits, "u32 x", "return digitreverse4<%d>(x & u32(%dull));" % (bits, 2 ** bits - 1), "u32 r = 0; for (int i = 0; i < %d; ++i) r |= ((x >> (2 * i)) & 3u) << (2 * (%d - i)); return r;" % (bits // 2, bits // 2 - 1), "u32", group="digit4idx")
    return P

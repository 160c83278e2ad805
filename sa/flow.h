// Value-flow analysis of straight-line/acyclic IR: every scalar element of every SSA value is mapped to a hash-consed
// canonical term over the function's inputs (value numbering over lanes and bits, ordered decision diagrams for
// selects and masks, linear forms for integers, polynomial normal forms for real arithmetic).
#pragma once
#include "common.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/IR/IntrinsicsX86.h"
#include <cmath>

namespace flow
{
typedef int Id;
struct Node { std::string op; unsigned w; std::vector<Id> a; std::string p; APInt c; };
struct Unres { std::string why; };
typedef std::vector<Id> Mono;                       // sorted atom ids
typedef std::map<Mono, double> Poly;

struct Ctx
{
    char mode = 'X';                               // X exact terms, L sums of opaque products, P distributed polynomials
    std::vector<Node> n; std::unordered_map<std::string, Id> tab;
    std::map<Id, Poly> polys; std::string fail;
    unsigned limit = 4000000;
    bool real() const { return mode == 'L' || mode == 'P'; }
    Id raw(const std::string& op, unsigned w, std::vector<Id> a, const std::string& p = "", APInt c = APInt(1, 0))
    {
        std::string k = op + "|" + std::to_string(w) + "|" + p; for (auto x : a) { k += ","; k += std::to_string(x); }
        auto it = tab.find(k); if (it != tab.end()) return it->second;
        if (n.size() > limit) { if (fail.empty()) fail = "term limit"; return 0; }
        n.push_back({ op, w, std::move(a), p, c }); return tab[k] = n.size() - 1;
    }
    Ctx() { n.push_back({ "fail", 1, {}, "", APInt(1, 0) }); }
    Id konst(const APInt& v) { SmallString<40> s; v.toStringUnsigned(s, 16); return raw("c", v.getBitWidth(), {}, s.str().str(), v); }
    Id konst(unsigned w, uint64_t v) { return konst(APInt(w, v)); }
    Id undef(unsigned w) { return raw("undef", w, {}); }
    bool isC(Id x) const { return n[x].op == "c"; }
    const APInt& cv(Id x) const { return n[x].c; }
    bool isOp(Id x, const char* o) const { return n[x].op == o; }
    unsigned w(Id x) const { return n[x].w; }

    // ---------------------------------------------------------------- decision diagrams (select, masks, i1)
    bool isIte(Id x) const { return n[x].op == "ite"; }
    Id top(Id x) const { return isIte(x) ? n[x].a[0] : 0x7fffffff; }
    Id bvar(Id atom) { return raw("ite", 1, { atom, konst(1, 1), konst(1, 0) }); }       // i1 atom as diagram
    Id asB(Id x) { if (n[x].w == 1 && !isIte(x) && !isC(x) && !isOp(x, "undef")) return bvar(x); return x; }
    Id widened(Id x) { if (isOp(x, "sext")) return n[x].a[0]; if (isOp(x, "cat") && n[x].a.size() == 2 && isC(n[x].a[1]) && cv(n[x].a[1]).isZero()) return n[x].a[0]; return x; }
    bool dividesBy(Id x, Id y) { if (isOp(x, "ext")) x = n[x].a[0]; const auto& o = n[x].op; return (o == "sdiv" || o == "udiv" || o == "srem" || o == "urem") && (n[x].a[1] == y || widened(n[x].a[1]) == y); }
    Id mkIte(Id atom, Id t, Id e)
    {
        if (t == e) return t;
        if (isOp(t, "undef")) return e; if (isOp(e, "undef")) return t;
        if (real() && isOp(atom, "ext") && !isIte(t) && !isIte(e) && w(t) == w(n[atom].a[0]) && (w(t) == 32 || w(t) == 64) && n[atom].p == std::to_string(w(t) - 1))
        { Id x = n[atom].a[0]; APInt S = APInt::getSignMask(w(t)); if (t == bit("and", x, konst(~S)) && e == bit("or", x, konst(S))) return bit("xor", x, konst(S)); }
        if (mode == 'M' && w(t) > 1) { Id r = orderMerge(atom, t, e); if (r >= 0) return r; }
        if (mode == 'M' && n[atom].op == "fcmp.olt" && w(t) > 1 && !isIte(t) && !isIte(e)) { Id x = n[atom].a[0], y = n[atom].a[1]; if (t == x && e == y) return order("fmin", w(t), x, y); if (t == y && e == x) return order("fmax", w(t), x, y); }
        bool s = n[atom].op == "icmp.slt", lt = s || n[atom].op == "icmp.ult";
        if (lt && !isIte(t) && !isIte(e) && w(t) > 1)
        {
            Id x = n[atom].a[0], y = n[atom].a[1];
            if (t == x && e == y) return comm(s ? "smin" : "umin", w(t), x, y);
            if (t == y && e == x) return comm(s ? "smax" : "umax", w(t), x, y);
            // ~x < y ? -1 : x + y  and  x + y < x ? -1 : x + y
            if (!s && isC(t) && cv(t).isAllOnes() && w(t) == w(x))
            {
                auto nt = [&](Id v) -> Id { return isOp(v, "xor") && n[v].a.size() == 2 && isC(n[v].a[1]) && cv(n[v].a[1]).isAllOnes() ? n[v].a[0] : -1; };
                if (nt(x) >= 0 && e == add(nt(x), y)) return comm("uadd.sat", w(t), nt(x), y);
                if (x == e && isOp(e, "lin") && n[e].a.size() == 4 && (n[e].a[0] == y || n[e].a[2] == y) && cv(n[e].a[1]).isOne() && cv(n[e].a[3]).isOne()) return comm("uadd.sat", w(t), n[e].a[0], n[e].a[2]);
            }
            // x < y ? 0 : x - y  and  y < x ? x - y : 0
            if (isC(t) && cv(t).isZero() && w(t) == w(x) && !isC(x) && !isC(y) && e == sub(x, y)) return raw("ite", w(t), { raw(s ? "icmp.slt" : "icmp.ult", 1, { y, x }), e, t });
            // x < k + 1 ? k : x  and  x < k + 1 ? x : k
            if (isC(y) && w(y) == w(t)) { Id k = konst(cv(y) - 1); if (t == k && e == x) return comm(s ? "smax" : "umax", w(t), x, k); if (t == x && e == k) return comm(s ? "smin" : "umin", w(t), x, k); }
        }
        if (n[atom].op == "icmp.eq" && (t == n[atom].a[0] && e == n[atom].a[1] || t == n[atom].a[1] && e == n[atom].a[0])) return e;
        // dividing by zero is undefined: the other branch of a zero test of the divisor decides
        if (n[atom].op == "icmp.eq") { Id p = n[atom].a[0], q = n[atom].a[1]; if (isC(p) && cv(p).isZero() && dividesBy(e, q) || isC(q) && cv(q).isZero() && dividesBy(e, p)) return e; }
        if (lt && w(t) > 1 && isIte(t) && isIte(e) && n[t].a[0] == n[e].a[0] && (n[t].a[1] == n[e].a[1]) != (n[t].a[2] == n[e].a[2]))
        {
            bool hi = n[t].a[1] == n[e].a[1]; Id in = n[t].a[0], c = n[t].a[hi ? 1 : 2], m = mkIte(atom, n[t].a[hi ? 2 : 1], n[e].a[hi ? 2 : 1]);
            if (!isIte(m)) return hi ? mkIte(in, c, m) : mkIte(in, m, c);
        }
        return raw("ite", w(t), { atom, t, e });
    }
    std::map<std::tuple<Id, Id, Id>, Id> memoIte;
    Id cof(Id x, Id atom, bool v) { return isIte(x) && n[x].a[0] == atom ? n[x].a[v ? 1 : 2] : x; }
    Id ite(Id c, Id t, Id e)
    {
        c = asB(c);
        if (isOp(c, "undef")) return t;
        if (isC(c)) return cv(c).isZero() ? e : t;
        if (t == e) return t;
        auto key = std::make_tuple(c, t, e); auto it = memoIte.find(key); if (it != memoIte.end()) return it->second;
        if (!fail.empty()) return 0;
        Id v = std::min({ top(c), top(t), top(e) });
        Id hi = ite(cof(c, v, true), cof(t, v, true), cof(e, v, true)), lo = ite(cof(c, v, false), cof(t, v, false), cof(e, v, false));
        return memoIte[key] = mkIte(v, hi, lo);
    }
    Id bnot(Id x) { return ite(x, konst(1, 0), konst(1, 1)); }
    // apply f over the leaves of up to two diagrams
    unsigned leaves(Id x, unsigned cap = 40) { if (!isIte(x)) return 1; std::set<Id> s; std::vector<Id> q{ x }; unsigned k = 0; while (!q.empty()) { Id y = q.back(); q.pop_back(); if (!s.insert(y).second) continue; if (isIte(y)) { q.push_back(n[y].a[1]); q.push_back(n[y].a[2]); } else ++k; if (s.size() > cap) return cap; } return k; }
    template <typename Fn> Id lift1(Id x, Fn f)
    {
        if (!isIte(x)) return f(x);
        std::map<Id, Id> memo; std::function<Id(Id)> go = [&](Id y) -> Id { if (!isIte(y)) return f(y); auto it = memo.find(y); if (it != memo.end()) return it->second; Id a = n[y].a[0], t = go(n[y].a[1]), e = go(n[y].a[2]); return memo[y] = mkOrd(a, t, e); };
        return go(x);
    }
    // children may expose smaller atoms after f: rebuild through ite on the atom
    Id mkOrd(Id atom, Id t, Id e) { if (top(t) > atom && top(e) > atom) return mkIte(atom, t, e); return ite(bvar(atom), t, e); }
    template <typename Fn> Id lift2(Id x, Id y, Fn f)
    {
        if (!isIte(x) && !isIte(y)) return f(x, y);
        std::map<std::pair<Id, Id>, Id> memo;
        std::function<Id(Id, Id)> go = [&](Id p, Id q) -> Id
        {
            if (!isIte(p) && !isIte(q)) return f(p, q);
            auto it = memo.find({ p, q }); if (it != memo.end()) return it->second;
            Id v = std::min(top(p), top(q));
            Id t = go(cof(p, v, true), cof(q, v, true)), e = go(cof(p, v, false), cof(q, v, false));
            return memo[{ p, q }] = mkOrd(v, t, e);
        };
        return go(x, y);
    }
    // ---------------------------------------------------------------- bits
    Id comm(const char* op, unsigned w, Id x, Id y)
    {
        if (mode == 'M') { std::string o = op; if (o == "smin" || o == "smax" || o == "umin" || o == "umax" || o == "fmin" || o == "fmax") return order(op, w, x, y); }
        if (x > y) std::swap(x, y); return raw(op, w, { x, y });
    }
    // mode M: a choice by a comparison that reaches the leaves of both branches in the same places
    Id orderMerge(Id atom, Id t, Id e)
    {
        const std::string o = n[atom].op; bool s = o == "icmp.slt", u = o == "icmp.ult", f = o == "fcmp.olt", q = o == "icmp.eq"; if (!s && !u && !f && !q) return -1;
        Id x = n[atom].a[0], y = n[atom].a[1]; if (q && isC(x)) std::swap(x, y); if (q && !isC(y) || isIte(x) || isIte(y)) return -1;
        const char *mn = s ? "smin" : u ? "umin" : "fmin", *mx = s ? "smax" : u ? "umax" : "fmax"; bool bad = false, top = !isIte(t) && !isIte(e) && !q; std::map<std::pair<Id, Id>, Id> memo;
        if (top && !(isOp(t, mn) || isOp(t, mx))) return -1;
        std::function<Id(Id, Id)> go = [&](Id a, Id b) -> Id
        {
            if (a == b || bad) return a;
            auto it = memo.find({ a, b }); if (it != memo.end()) return it->second;
            Id r = -1;
            if (isIte(a) && isIte(b)) { if (n[a].a[0] == n[b].a[0]) { auto A = n[a].a, B = n[b].a; Id h = go(A[1], B[1]), l = go(A[2], B[2]); if (!bad) r = mkOrd(A[0], h, l); } }
            else if (isIte(a) || isIte(b)) {}
            else if (q) { if (b == x && a == y) r = b; else for (const char* k : { "smin", "smax", "umin", "umax" }) if (isOp(b, k)) { Id z = order(k, w(a), a, x); if (z == b && order(k, w(x), x, y) == x) r = b; } }
            else if (a == y && b == x) r = order(mx, w(a), x, y);
            else if (a == x && b == y) r = order(mn, w(a), x, y);
            else for (const char* k : { mn, mx }) if (isOp(a, k) || isOp(b, k))
            {
                auto set = [&](Id v) { return isOp(v, k) ? std::set<Id>(n[v].a.begin(), n[v].a.end()) : std::set<Id>{ v }; };
                auto A = set(a), B = set(b); bool my = A.count(y) && !B.count(y) && B.count(x) && !A.count(x), nx = A.count(x) && !B.count(x) && B.count(y) && !A.count(y);
                if (!my && !nx) continue; A.erase(my ? y : x); B.erase(my ? x : y); if (A != B || A.empty()) continue;
                Id v = order(my ? mx : mn, w(a), x, y); for (auto z : A) v = order(k, w(a), v, z); r = v;
            }
            if (r < 0) { bad = true; return a; }
            return memo[{ a, b }] = r;
        };
        Id r = go(t, e); return bad ? -1 : r;
    }
    // mode M: minimum and maximum as functions of the set of operands (ordered operands: no NaN)
    Id order(const char* op, unsigned w, Id x, Id y)
    {
        std::set<Id> m; for (Id v : { x, y }) if (isOp(v, op)) m.insert(n[v].a.begin(), n[v].a.end()); else m.insert(v);
        if (op[0] == 'f') for (auto it = m.begin(); it != m.end();) { if (isC(*it) && (w == 32 || w == 64)) { APFloat f(w == 32 ? APFloat::IEEEsingle() : APFloat::IEEEdouble(), cv(*it)); if (f.isInfinity() && f.isNegative() == (op[2] == 'a')) { it = m.erase(it); continue; } } ++it; }
        if (op[0] != 'f') for (auto it = m.begin(); it != m.end();) { if (isC(*it) && cv(*it) == (op[2] == 'i' ? (op[0] == 's' ? APInt::getSignedMaxValue(w) : APInt::getAllOnes(w)) : (op[0] == 's' ? APInt::getSignedMinValue(w) : APInt(w, 0)))) { it = m.erase(it); continue; } ++it; }
        if (m.empty()) return x; if (m.size() == 1) return *m.begin();
        return raw(op, w, std::vector<Id>(m.begin(), m.end()));
    }
    Id ext(Id x, unsigned lo, unsigned k)
    {
        if (lo == 0 && k == w(x)) return x;
        if (isIte(x)) return lift1(x, [&](Id y) { return ext(y, lo, k); });
        const Node N = n[x];
        if (N.op == "c") return konst(N.c.extractBits(k, lo));
        if (N.op == "undef") return undef(k);
        if (N.op == "ext") return ext(N.a[0], lo + std::stoul(N.p), k);
        if (N.op == "cat")
        {
            std::vector<Id> r; unsigned pos = 0;
            for (auto y : N.a) { unsigned l = pos, h = pos + w(y); pos = h; unsigned a = std::max(l, lo), b = std::min(h, lo + k); if (a < b) r.push_back(ext(y, a - l, b - a)); }
            return cat(r);
        }
        if (N.op == "and" || N.op == "or" || N.op == "xor") { Id r = ext(N.a[0], lo, k); for (size_t i = 1; i < N.a.size(); ++i) r = bit(N.op.c_str(), r, ext(N.a[i], lo, k)); return r; }
        if (N.op == "sext" && lo + k <= w(N.a[0])) return ext(N.a[0], lo, k);
        if (N.op == "sext" && lo < w(N.a[0])) return sext(ext(N.a[0], lo, w(N.a[0]) - lo), k);
        if (N.op == "sext" && lo >= w(N.a[0]) && k == 1) return ext(N.a[0], w(N.a[0]) - 1, 1);
        if (N.op == "mul" && lo == 0) { Id r = ext(N.a[0], 0, k); for (size_t i = 1; i < N.a.size(); ++i) r = mul(r, ext(N.a[i], 0, k)); return r; }
        if ((N.op == "shl" || N.op == "ashr" || N.op == "lshr") && lo == 0)
        {
            Id sh = N.a[1]; if (isOp(sh, "cat") && w(widened(sh)) == k) sh = widened(sh); else sh = -1;
            if (sh >= 0 && N.op == "shl") return raw("shl", k, { ext(N.a[0], 0, k), sh });
            if (sh >= 0 && w(widened(N.a[0])) == k && isOp(N.a[0], N.op == "ashr" ? "sext" : "cat")) return raw(N.op.c_str(), k, { widened(N.a[0]), sh });
        }
        if ((N.op == "sdiv" || N.op == "srem") && lo == 0 && isOp(N.a[0], "sext") && isOp(N.a[1], "sext") && w(n[N.a[0]].a[0]) == k && w(n[N.a[1]].a[0]) == k) return raw(N.op.c_str(), k, { n[N.a[0]].a[0], n[N.a[1]].a[0] });
        if ((N.op == "udiv" || N.op == "urem") && lo == 0 && isOp(N.a[0], "cat") && isOp(N.a[1], "cat") && w(widened(N.a[0])) == k && w(widened(N.a[1])) == k) return raw(N.op.c_str(), k, { widened(N.a[0]), widened(N.a[1]) });
        if (N.op == "lin" && lo == 0) return linExt(x, k);
        if (N.op == "lin") // every term a multiple of 2^lo: shift the coefficients instead of the sum
        {
            // ... apart from at most one plain term, whose low bits then meet only zeros
            unsigned odd = 0, at = 0; for (size_t i = 0; i < N.a.size(); i += 2) { APInt l = cv(N.a[i + 1]) & APInt::getLowBitsSet(w(x), lo); if (l != 0) { ++odd; at = i; if (l != 1 || N.a[i] == 0) odd = 2; } }
            if (odd < 2)
            {
                Lin L; auto put = [&](Id key, APInt v) { auto it = L.find(key); if (it == L.end()) L.emplace(key, v); else it->second += v; };
                for (size_t i = 0; i < N.a.size(); i += 2) { APInt c = cv(N.a[i + 1]).lshr(lo).trunc(k); if (N.a[i] == 0) put(-1, c); else { if (c != 0) terms(ext(N.a[i], 0, k), L, c); if (odd && i == at) terms(ext(N.a[i], lo, k), L, APInt(k, 1)); } }
                return fromLin(L, k);
            }
        }
        if (N.op == "in" && lo % 8 == 0 && k % 8 == 0) { auto q = N.p.rfind(':'); return in(N.a, N.p.substr(0, q), std::stoll(N.p.substr(q + 1)) + lo / 8, k); }
        if (N.op == "in") { unsigned b0 = lo / 8, b1 = (lo + k + 7) / 8; if (b0 || b1 * 8 < w(x)) { auto q = N.p.rfind(':'); return raw("ext", k, { in(N.a, N.p.substr(0, q), std::stoll(N.p.substr(q + 1)) + b0, (b1 - b0) * 8) }, std::to_string(lo - b0 * 8)); } }
        Id r = raw("ext", k, { x }, std::to_string(lo));
        return r;
    }
    // absolute bit position of a piece of an input
    bool inBits(Id x, std::string& b, std::vector<Id>& a, int64_t& pos) { const Node& N = n[x]; if (N.op == "ext" && n[N.a[0]].op == "in") { if (!inBits(N.a[0], b, a, pos)) return false; pos += std::stoul(N.p); return true; } if (N.op != "in") return false; auto q = N.p.rfind(':'); b = N.p.substr(0, q); a = N.a; pos = std::stoll(N.p.substr(q + 1)) * 8; return true; }
    Id in(const std::vector<Id>& a, const std::string& base, int64_t off, unsigned wd) { return raw("in", wd, a, base + ":" + std::to_string(off)); }
    bool nonneg(Id x) { if (isC(x)) return !cv(x).isSignBitSet(); if (isOp(x, "smax")) return nonneg(n[x].a[0]) || nonneg(n[x].a[1]); if (isOp(x, "smin")) return nonneg(n[x].a[0]) && nonneg(n[x].a[1]); if (isOp(x, "cat")) return nonneg(n[x].a.back()); return false; }
    Id cat(std::vector<Id> v)
    {
        // flatten, merge adjacent pieces
        std::vector<Id> f; for (auto x : v) { if (isOp(x, "cat")) for (auto y : n[x].a) f.push_back(y); else f.push_back(x); }
        unsigned tot = 0; for (auto x : f) tot += w(x);
        if (f.size() > 1) for (auto& x : f) if (isIte(x) && w(x) == 1 && isOp(n[x].a[0], "ext") && isC(n[x].a[1]) && isC(n[x].a[2]) && cv(n[x].a[1]).isOne() && cv(n[x].a[2]).isZero()) x = n[x].a[0];
        // diagrams: lift when every diagram shares structure (vector masks), otherwise keep whole
        for (auto x : f) if (isIte(x))
        {
            Id vtop = 0x7fffffff; for (auto y : f) vtop = std::min(vtop, top(y));
            bool small = true; unsigned cnt = 0; for (auto y : f) if (isIte(y)) ++cnt;
            if (cnt > 1) { std::set<Id> tops; for (auto y : f) if (isIte(y)) tops.insert(top(y)); small = tops.size() == 1; }
            if (!small) break;
            std::vector<Id> t, e; for (auto y : f) { t.push_back(cof(y, vtop, true)); e.push_back(cof(y, vtop, false)); }
            return mkOrd(vtop, cat(t), cat(e));
        }
        std::vector<Id> m;
        for (auto x : f)
        {
            if (!m.empty())
            {
                Id y = m.back(); const Node &X = n[x], &Y = n[y]; Id z = -1;
                if (X.op == "c" && Y.op == "c") z = konst(X.c.concat(Y.c));
                else if (X.op == "undef" && Y.op == "undef") z = undef(X.w + Y.w);
                else
                {
                    std::string bx, by; std::vector<Id> ax, ay; int64_t px, py;
                    if (inBits(x, bx, ax, px) && inBits(y, by, ay, py) && bx == by && ax == ay && px == py + (int64_t)Y.w)
                    { int64_t f = py >= 0 ? py / 8 : -((-py + 7) / 8); unsigned tot = X.w + Y.w, lo = py - f * 8; z = ext(in(ax, bx, f, (lo + tot + 7) / 8 * 8), lo, tot); }
                }
                if (z < 0)
                {
                    // pieces of one value
                    Id bx = X.op == "ext" ? X.a[0] : x, by = Y.op == "ext" ? Y.a[0] : y;
                    unsigned lx = X.op == "ext" ? std::stoul(X.p) : 0, ly = Y.op == "ext" ? std::stoul(Y.p) : 0;
                    if (bx == by && lx == ly + Y.w && !(bx == x && by == y)) z = ext(bx, ly, X.w + Y.w);
                    else if (bx != x && (n[bx].op == "lin" || n[bx].op == "sext" || n[bx].op == "mul" || n[bx].op == "shl") && lx >= Y.w && ext(bx, lx - Y.w, Y.w) == y) z = ext(bx, lx - n[y].w, n[y].w + n[x].w);
                }
                if (z < 0) z = joinBits(y, x);
                if (z >= 0) { m.back() = z; continue; }
            }
            m.push_back(x);
        }
        if (m.size() == 1) return m[0];
        if (m.size() == 2 && (tot == 32 || tot == 64) && w(m[1]) == 1 && isC(m[1]) && cv(m[1]).isZero() && n[m[0]].op == "ext" && n[m[0]].p == "0" && w(n[m[0]].a[0]) == tot) return raw("and", tot, { n[m[0]].a[0], konst(APInt::getSignedMaxValue(tot)) });
        // clearing bits that are known to be zero
        if (m.size() == 2 && w(m[1]) == 1 && isC(m[1]) && cv(m[1]).isZero() && n[m[0]].op == "ext" && n[m[0]].p == "0" && w(n[m[0]].a[0]) == tot && nonneg(n[m[0]].a[0])) return n[m[0]].a[0];
        return raw("cat", tot, m);
    }
    bool bitNode(Id x) { const auto& o = n[x].op; return (o == "and" || o == "or" || o == "xor") && n[x].a.size() >= 2; }
    // adjacent pieces of one bitwise operation (or of a value whose high part is xored with a constant)
    Id joinBits(Id lo, Id hi)
    {
        auto one = [&](Id a, Id b) -> Id { if (isIte(a) || isIte(b)) return -1; Id z = cat({ a, b }); return n[z].op == "cat" ? -1 : z; };
        if (n[hi].op == "sext" && !isIte(lo)) { Id b = one(lo, n[hi].a[0]); return b < 0 ? -1 : sext(b, w(lo) + w(hi)); }
        if (!bitNode(hi) && !bitNode(lo)) return -1;
        auto xc = [&](Id v, Id& b, APInt& k) { if (n[v].op == "xor" && n[v].a.size() == 2 && isC(n[v].a[1])) { b = n[v].a[0]; k = cv(n[v].a[1]); return true; } if (bitNode(v) || isC(v)) return false; b = v; k = APInt(w(v), 0); return true; };
        Id bl, bh; APInt kl, kh;
        if (xc(lo, bl, kl) && xc(hi, bh, kh)) { Id b = one(bl, bh); return b < 0 ? -1 : raw("xor", w(b), { b, konst(kh.concat(kl)) }); }
        if (n[lo].op != n[hi].op || n[lo].a.size() != n[hi].a.size()) return -1;
        std::vector<Id> A = n[lo].a, B = n[hi].a, r; std::vector<char> used(B.size(), 0);
        for (auto a : A)
        {
            bool f = false;
            for (size_t j = 0; j < B.size() && !f; ++j) if (!used[j] && isC(a) == isC(B[j])) { Id z = isC(a) ? konst(cv(B[j]).concat(cv(a))) : one(a, B[j]); if (z >= 0) { used[j] = 1; r.push_back(z); f = true; } }
            if (!f) return -1;
        }
        Id z = r[0]; std::string o = n[lo].op; for (size_t i = 1; i < r.size(); ++i) z = bit(o.c_str(), z, r[i]);
        return n[z].op == "cat" ? -1 : z;
    }
    Id bit(const char* op, Id x, Id y)
    {
        std::string o = op;
        if (w(x) == 1) { x = asB(x); y = asB(y); if (o == "and") return ite(x, y, konst(1, 0)); if (o == "or") return ite(x, konst(1, 1), y); return ite(x, bnot(y), y); }
        if (real() && o == "xor") for (int k = 0; k < 2; ++k)   // conditional sign flip
        { Id b = k ? x : y, v = k ? y : x; if (isOp(b, "cat") && n[b].a.size() == 2 && w(n[b].a[1]) == 1 && isC(n[b].a[0]) && cv(n[b].a[0]).isZero()) return ite(n[b].a[1], bit("xor", v, konst(APInt::getSignMask(w(b)))), v); }
        if (isIte(x) || isIte(y)) return lift2(x, y, [&](Id p, Id q) { return bit(op, p, q); });
        if (isOp(x, "undef") || isOp(y, "undef")) { if (isOp(x, "undef") && isOp(y, "undef")) return undef(w(x)); }
        if (isC(x)) std::swap(x, y);
        if (isC(y))
        {
            const APInt K = cv(y);
            if (isC(x)) { APInt k = cv(x); return konst(o == "and" ? k & K : o == "or" ? k | K : k ^ K); }
            if (o == "and") { if (K.isZero()) return y; if (K.isAllOnes()) return x; }
            if (o == "or") { if (K.isZero()) return x; if (K.isAllOnes()) return y; }
            if (o == "xor") { if (K.isZero()) return x; if (n[x].op == "xor" && n[x].a.size() == 2 && isC(n[x].a[1])) return bit("xor", n[x].a[0], konst(cv(n[x].a[1]) ^ K)); }
            if (real() && o == "xor" && K.isSignMask() && polys.count(x)) return fneg(x);
            if (n[x].op == "cat" && std::any_of(n[x].a.begin(), n[x].a.end(), [&](Id q) { return isIte(q); }))
            { auto a = n[x].a; unsigned pos = 0; for (auto& q : a) { unsigned k = w(q); q = bit(op, q, konst(K.extractBits(k, pos))); pos += k; } return cat(a); }
            // split on contiguous runs of a mask constant
            if (o == "and" && (n[x].op == "cat" || (K.isMask() || K.isShiftedMask())) && !(K.isNegatedPowerOf2() && false) && !(isFabs(K, w(x))))
            {
                unsigned lo = K.countr_zero(), len = K.getActiveBits() - lo; 
                if (K.isMask() || K.isShiftedMask()) { std::vector<Id> p; if (lo) p.push_back(konst(APInt(lo, 0))); p.push_back(ext(x, lo, len)); if (lo + len < w(x)) p.push_back(konst(APInt(w(x) - lo - len, 0))); return cat(p); }
            }
            if (n[x].op == op && n[x].a.size() == 2 && isC(n[x].a[1])) { APInt k = cv(n[x].a[1]); return bit(op, n[x].a[0], konst(o == "and" ? k & K : k | K)); }
            return raw(op, w(x), { x, y });
        }
        if (x == y) return o == "xor" ? konst(APInt(w(x), 0)) : x;
        if (n[x].op == "cat" || n[y].op == "cat")
        {
            std::set<unsigned> cut; unsigned pos = 0; auto add = [&](Id z) { pos = 0; if (n[z].op == "cat") for (auto k : n[z].a) { pos += w(k); cut.insert(pos); } else cut.insert(w(z)); };
            add(x); add(y); std::vector<Id> r; unsigned l = 0; for (auto h : cut) { r.push_back(bit(op, ext(x, l, h - l), ext(y, l, h - l))); l = h; }
            return cat(r);
        }
        // and(x, not x) and friends
        auto notOf = [&](Id p, Id q) { return n[p].op == "xor" && n[p].a.size() == 2 && isC(n[p].a[1]) && cv(n[p].a[1]).isAllOnes() && n[p].a[0] == q; };
        if (notOf(x, y) || notOf(y, x)) return konst(o == "and" ? APInt(w(x), 0) : APInt::getAllOnes(w(x)));
        // flatten associative
        std::vector<Id> f; auto push = [&](Id z) { if (n[z].op == op && n[z].a.size() >= 2) for (auto k : n[z].a) f.push_back(k); else f.push_back(z); };
        push(x); push(y);
        APInt K = o == "and" ? APInt::getAllOnes(w(x)) : APInt(w(x), 0); std::vector<Id> g;
        for (auto z : f) if (isC(z)) { if (o == "and") K &= cv(z); else if (o == "or") K |= cv(z); else K ^= cv(z); } else g.push_back(z);
        std::sort(g.begin(), g.end());
        if (o == "xor") { std::vector<Id> h; for (auto z : g) { if (!h.empty() && h.back() == z) h.pop_back(); else h.push_back(z); } g = h;
            if (real()) for (size_t i = 0; i < g.size(); ++i) if (polys.count(g[i])) { Id m = fneg(g[i]); auto it = std::find(g.begin(), g.end(), m); if (it != g.end() && *it != g[i]) { Id p = g[i]; g.erase(it); g.erase(std::find(g.begin(), g.end(), p)); K ^= APInt::getSignMask(w(x)); break; } } }
        else g.erase(std::unique(g.begin(), g.end()), g.end());
        if (g.empty()) return konst(K);
        if (!(o == "and" ? K.isAllOnes() : K.isZero())) { if (o == "and" && K.isZero() || o == "or" && K.isAllOnes()) return konst(K); g.push_back(konst(K)); }
        if (g.size() == 1) return g[0];
        return raw(op, w(x), g);
    }
    static bool isFabs(const APInt& K, unsigned w) { return (w == 32 || w == 64) && K == APInt::getSignedMaxValue(w); }
    Id sext(Id x, unsigned k)
    {
        if (w(x) == 1) return ite(x, konst(APInt::getAllOnes(k)), konst(APInt(k, 0)));
        if (isIte(x)) return lift1(x, [&](Id y) { return sext(y, k); });
        if (isC(x)) return konst(cv(x).sext(k));
        if (isOp(x, "undef")) return undef(k);
        if (n[x].op == "sext") return sext(n[x].a[0], k);
        if (n[x].op == "cat") { auto a = n[x].a; unsigned lo = w(x) - w(a.back()); a.back() = sext(a.back(), k - lo); return cat(a); }
        return raw("sext", k, { x });
    }
    Id zext(Id x, unsigned k) { if (w(x) == k) return x; return cat({ x, konst(APInt(k - w(x), 0)) }); }
    Id shift(const std::string& op, Id x, Id s)
    {
        if (isC(s))
        {
            unsigned W = w(x); uint64_t k = cv(s).getLimitedValue(W);
            if (k == 0) return x;
            if (k >= W) return undef(W);
            if (op == "shl") { if (n[x].op == "c") return konst(cv(x).shl(k)); if (lp(x)) return lin(x, konst(APInt(W, 1).shl(k)), true); return cat({ konst(APInt(k, 0)), ext(x, 0, W - k) }); }
            if (op == "lshr") return cat({ ext(x, k, W - k), konst(APInt(k, 0)) });
            if (n[x].op == "c") return konst(cv(x).ashr(k));
            return sext(ext(x, k, W - k), W);
        }
        if (isIte(x) && leaves(x) <= 4) return lift1(x, [&](Id y) { return shift(op, y, s); });
        return raw(op, w(x), { x, s });
    }
    bool lp(Id x) { return n[x].op == "lin" || n[x].op == "mul"; }
    // ---------------------------------------------------------------- integer linear forms (mod 2^w)
    typedef std::map<Id, APInt> Lin;   // key -1: constant
    void terms(Id x, Lin& r, const APInt& k)
    {
        unsigned W = w(x); auto add = [&](Id key, const APInt& v) { auto it = r.find(key); if (it == r.end()) r.emplace(key, v); else it->second += v; };
        if (isC(x)) { add(-1, cv(x) * k); return; }
        if (n[x].op == "lin") { const auto N = n[x]; for (size_t i = 0; i < N.a.size(); i += 2) { if (N.a[i] == 0) add(-1, cv(N.a[i + 1]) * k); else add(N.a[i], cv(N.a[i + 1]) * k); } return; }
        // constant end pieces of a concatenation are an addend
        if (n[x].op == "cat" && isC(n[x].a[0]) && !cv(n[x].a[0]).isZero()) { auto a = n[x].a; add(-1, cv(a[0]).zext(W) * k); a[0] = konst(APInt(w(a[0]), 0)); terms(cat(a), r, k); return; }
        if (n[x].op == "cat" && isC(n[x].a.back()) && !cv(n[x].a.back()).isZero()) { auto a = n[x].a; unsigned t = w(a.back()); add(-1, cv(a.back()).zext(W).shl(W - t) * k); a.back() = konst(APInt(t, 0)); terms(cat(a), r, k); return; }
        // zero-extended value shifted up
        if (n[x].op == "cat" && n[x].a.size() == 3 && isC(n[x].a[0]) && isC(n[x].a[2])) { unsigned s = w(n[x].a[0]); add(zext(n[x].a[1], W), APInt(W, 1).shl(s) * k); return; }
        if (n[x].op == "xor" && n[x].a.size() == 2 && isC(n[x].a[1]) && cv(n[x].a[1]).isSignMask()) { add(-1, cv(n[x].a[1]) * k); terms(n[x].a[0], r, k); return; }
        // shl as a multiplication: cat(0.., ext(y,0,..))
        if (n[x].op == "cat" && n[x].a.size() == 2 && isC(n[x].a[0]) && cv(n[x].a[0]).isZero())
        {
            Id h = n[x].a[1]; unsigned s = w(n[x].a[0]);
            Id y = -1;
            if (n[h].op == "ext" && n[h].p == "0" && w(n[h].a[0]) == W) y = n[h].a[0];
            if (n[h].op == "sext") y = sext(n[h].a[0], W);
            if (y >= 0) { terms(y, r, k.shl(s)); return; }
        }
        add(x, k);
    }
    Id fromLin(Lin& L, unsigned W)
    {
        std::vector<Id> a; APInt K(W, 0); auto it = L.find(-1); if (it != L.end()) { K = it->second; L.erase(it); }
        for (auto& [x, k] : L) if (!k.isZero()) { a.push_back(x); a.push_back(konst(k)); }
        if (a.empty()) return konst(K);
        if (K.isZero() && a.size() == 2 && cv(a[1]).isOne()) return a[0];
        {   // shifted copies that do not overlap are a concatenation
            std::vector<std::tuple<unsigned, unsigned, Id>> pc; bool ok = true; unsigned tot = 0;
            for (size_t i = 0; i < a.size() && ok; i += 2)
            {
                Id x = a[i]; unsigned act = W; if (isOp(x, "cat") && isC(n[x].a.back()) && cv(n[x].a.back()).isZero()) act = W - w(n[x].a.back());
                const APInt& k = cv(a[i + 1]); if (k.popcount() > 8) { ok = false; break; }
                for (unsigned b = 0; b < W && ok; ++b) if (k[b]) { pc.push_back({ b, std::min(W, b + act), x }); if (++tot > 16) ok = false; }
            }
            if (!K.isZero()) { for (unsigned b = 0; b < W && ok;) { if (!K[b]) { ++b; continue; } unsigned e = b; while (e < W && K[e]) ++e; pc.push_back({ b, e, -1 }); b = e; if (++tot > 16) ok = false; } }
            if (ok && a.size() == 2 && K.isZero() && cv(a[1]).isOne()) ok = false;
            if (ok)
            {
                std::sort(pc.begin(), pc.end()); unsigned pos = 0; std::vector<Id> r;
                for (auto& [l, h, x] : pc) { if (l < pos) { ok = false; break; } if (l > pos) r.push_back(konst(APInt(l - pos, 0))); r.push_back(x < 0 ? konst(APInt::getAllOnes(h - l)) : ext(x, 0, h - l)); pos = h; }
                if (ok) { if (pos < W) r.push_back(konst(APInt(W - pos, 0))); return cat(r); }
            }
        }
        if (K.isZero() && a.size() == 2 && cv(a[1]).isPowerOf2()) { unsigned k = cv(a[1]).logBase2(); return cat({ konst(APInt(k, 0)), ext(a[0], 0, W - k) }); }
        if (a.size() == 2 && cv(a[1]).isAllOnes() && K.isAllOnes()) return bit("xor", a[0], konst(K));   // -x-1 = ~x
        if (a.size() == 2 && cv(a[1]).isOne() && K.isSignMask()) return raw("xor", W, { a[0], konst(K) });
        if (!K.isZero()) { a.push_back(0); a.push_back(konst(K)); }
        return raw("lin", W, a);
    }
    Id lin(Id x, Id y, bool mulByConst)   // x + y, or x * const y
    {
        Lin L; unsigned W = w(x);
        if (mulByConst) terms(x, L, cv(y)); else { terms(x, L, APInt(W, 1)); terms(y, L, APInt(W, 1)); }
        return fromLin(L, W);
    }
    Id add(Id x, Id y)
    {
        for (auto [p, q] : { std::make_pair(x, y), std::make_pair(y, x) })   // sign bit as 0/1 plus a constant
            if (isC(q) && n[p].op == "cat" && n[p].a.size() == 2 && w(n[p].a[0]) == 1 && isC(n[p].a[1]) && cv(n[p].a[1]).isZero()) return ite(n[p].a[0], konst(cv(q) + 1), q);
        if (liftable(x, y)) return lift2(x, y, [&](Id p, Id q) { return add(p, q); }); if (isOp(x, "undef") || isOp(y, "undef")) return undef(w(x)); notLin(x); notLin(y); return lin(x, y, false); }
    void notLin(Id& x) { if (n[x].op == "xor" && n[x].a.size() == 2 && isC(n[x].a[1]) && cv(n[x].a[1]).isAllOnes()) { unsigned W = w(x); x = raw("lin", W, { n[x].a[0], konst(APInt::getAllOnes(W)), 0, konst(APInt::getAllOnes(W)) }); } }
    Id neg(Id x) { if (isIte(x) && leaves(x) <= 4) return lift1(x, [&](Id p) { return neg(p); }); notLin(x); return lin(x, konst(APInt::getAllOnes(w(x))), true); }
    Id sub(Id x, Id y) { if (isOp(x, "undef") || isOp(y, "undef")) return undef(w(x)); return add(x, neg(y)); }
    bool liftable(Id x, Id y) { return (isIte(x) && isC(y)) || (isIte(y) && isC(x)) || (isIte(x) && isIte(y) && allC(x) && allC(y)) || (isIte(x) && allC(x)) || (isIte(y) && allC(y)) ; }
    bool allC(Id x) { if (isC(x)) return true; if (!isIte(x)) return false; return leaves(x) <= 8 && allC(n[x].a[1]) && allC(n[x].a[2]); }
    Id mul(Id x, Id y)
    {
        if (isC(x)) std::swap(x, y);
        if (isC(y) && !isIte(x)) return lin(x, y, true);
        if (liftable(x, y)) return lift2(x, y, [&](Id p, Id q) { return mul(p, q); });
        if (isOp(x, "undef") || isOp(y, "undef")) return undef(w(x));
        for (auto [p, q] : { std::make_pair(x, y), std::make_pair(y, x) })
            if (isOp(p, "cat") && isC(n[p].a[0]) && cv(n[p].a[0]).isZero()) { unsigned k = w(n[p].a[0]), W = w(p); return cat({ konst(APInt(k, 0)), mul(ext(p, k, W - k), ext(q, 0, W - k)) }); }
        // flatten products
        std::vector<Id> f; for (auto z : { x, y }) if (n[z].op == "mul") for (auto k : n[z].a) f.push_back(k); else f.push_back(z);
        std::sort(f.begin(), f.end());
        return raw("mul", w(x), f);
    }
    Id linExt(Id x, unsigned k) { const auto N = n[x]; Lin L; for (size_t i = 0; i < N.a.size(); i += 2) { APInt c = cv(N.a[i + 1]).trunc(k); Id y = N.a[i] == 0 ? -1 : ext(N.a[i], 0, k); auto add = [&](Id key, APInt v) { auto it = L.find(key); if (it == L.end()) L.emplace(key, v); else it->second += v; }; if (y == -1) add(-1, c); else terms(y, L, c); } return fromLin(L, k); }
    Id icmp(CmpInst::Predicate p, Id x, Id y)
    {
        typedef CmpInst C;
        switch (p)
        {
        case C::ICMP_NE: return bnot(icmp(C::ICMP_EQ, x, y));
        case C::ICMP_SGT: return icmp(C::ICMP_SLT, y, x);
        case C::ICMP_SGE: return bnot(icmp(C::ICMP_SLT, x, y));
        case C::ICMP_SLE: return bnot(icmp(C::ICMP_SLT, y, x));
        case C::ICMP_UGT: return icmp(C::ICMP_ULT, y, x);
        case C::ICMP_UGE: return bnot(icmp(C::ICMP_ULT, x, y));
        case C::ICMP_ULE: return bnot(icmp(C::ICMP_ULT, y, x));
        default: break;
        }
        if ((isIte(x) || isIte(y)) && leaves(x) * leaves(y) <= 64) return lift2(x, y, [&](Id a, Id b) { return icmp(p, a, b); });
        if (isC(x) && isC(y)) return konst(1, ICmpInst::compare(cv(x), cv(y), p));
        if (x == y) return konst(1, p == C::ICMP_EQ);
        if (isOp(x, "undef") || isOp(y, "undef")) return undef(1);
        if (p == C::ICMP_ULT && (isC(y) && cv(y).isZero() || isC(x) && cv(x).isAllOnes())) return konst(1, 0);
        if (p == C::ICMP_ULT && isC(y) && cv(y).isOne()) return icmp(C::ICMP_EQ, x, konst(w(x), 0));
        if (p == C::ICMP_EQ)
        {
            if (w(x) == 1) return bnot(bit("xor", x, y));
            if (isC(x)) std::swap(x, y);
            if (isC(y) && n[x].op == "cat" && std::any_of(n[x].a.begin(), n[x].a.end(), [&](Id q) { return isIte(q); }))
            { Id r = konst(1, 1); unsigned pos = 0; auto a = n[x].a; for (auto q : a) { r = bit("and", r, icmp(p, q, konst(cv(y).extractBits(w(q), pos)))); pos += w(q); } return r; }
            return bvar(comm("icmp.eq", 1, x, y));
        }
        {   // both sides with the sign bit flipped
            auto fl = [&](Id v) -> Id { if (isC(v)) return konst(cv(v) ^ APInt::getSignMask(w(v))); return isOp(v, "xor") && n[v].a.size() == 2 && isC(n[v].a[1]) && cv(n[v].a[1]).isSignMask() ? n[v].a[0] : -1; };
            Id u = fl(x), v = fl(y); if ((p == C::ICMP_SLT || p == C::ICMP_ULT) && u >= 0 && v >= 0 && !(isC(x) && isC(y)) ) return icmp(p == C::ICMP_SLT ? C::ICMP_ULT : C::ICMP_SLT, u, v);
        }
        if (p == C::ICMP_SLT && isC(y) && cv(y).isZero()) return asB(ext(x, w(x) - 1, 1));
        if (p == C::ICMP_SLT && isC(x) && cv(x).isAllOnes()) return bnot(asB(ext(y, w(y) - 1, 1)));
        if (p == C::ICMP_ULT && isC(x) && cv(x).isZero()) return bnot(icmp(C::ICMP_EQ, y, x));
        if (p == C::ICMP_ULT && isC(x) && cv(x) == APInt::getSignedMaxValue(w(x))) return asB(ext(y, w(y) - 1, 1));
        if (isC(x)) { // c < y  ->  not (y < c+1)
            APInt k = cv(x) + 1; if (p == C::ICMP_SLT ? !k.isMinSignedValue() : !k.isZero()) return bnot(bvar(raw(p == C::ICMP_SLT ? "icmp.slt" : "icmp.ult", 1, { y, konst(k) })));
        }
        return bvar(raw(p == C::ICMP_SLT ? "icmp.slt" : "icmp.ult", 1, { x, y }));
    }
    Id nanOf(Id x) { if ((isOp(x, "and") || isOp(x, "xor")) && n[x].a.size() == 2 && isC(n[x].a[1]) && (isOp(x, "and") ? isFabs(cv(n[x].a[1]), w(x)) : cv(n[x].a[1]).isSignMask())) return nanOf(n[x].a[0]); if (isC(x)) { APFloat f(sem(w(x)), cv(x)); return konst(1, f.isNaN()); } return bnot(bvar(raw("fcmp.oeq", 1, { x, x }))); }
    static const fltSemantics& sem(unsigned w) { return w == 64 ? APFloat::IEEEdouble() : w == 32 ? APFloat::IEEEsingle() : w == 16 ? APFloat::IEEEhalf() : APFloat::x87DoubleExtended(); }
    Id fcmp(CmpInst::Predicate p, Id x, Id y)
    {
        typedef CmpInst C;
        if ((isIte(x) || isIte(y)) && leaves(x) * leaves(y) <= 64) return lift2(x, y, [&](Id a, Id b) { return fcmp(p, a, b); });
        switch (p)
        {
        case C::FCMP_FALSE: return konst(1, 0);
        case C::FCMP_TRUE: return konst(1, 1);
        case C::FCMP_OGT: return fcmp(C::FCMP_OLT, y, x);
        case C::FCMP_OGE: return fcmp(C::FCMP_OLE, y, x);
        case C::FCMP_UGE: return bnot(fcmp(C::FCMP_OLT, x, y));
        case C::FCMP_UGT: return bnot(fcmp(C::FCMP_OLE, x, y));
        case C::FCMP_ULE: return bnot(fcmp(C::FCMP_OLT, y, x));
        case C::FCMP_ULT: return bnot(fcmp(C::FCMP_OLE, y, x));
        case C::FCMP_UNE: return bnot(fcmp(C::FCMP_OEQ, x, y));
        case C::FCMP_UNO: if (mode == 'M') return konst(1, 0); return bit("or", nanOf(x), nanOf(y));
        case C::FCMP_ORD: if (mode == 'M') return konst(1, 1); return bnot(bit("or", nanOf(x), nanOf(y)));
        case C::FCMP_ONE: return bit("and", fcmp(C::FCMP_ORD, x, y), bnot(fcmp(C::FCMP_OEQ, x, y)));
        case C::FCMP_UEQ: return bnot(fcmp(C::FCMP_ONE, x, y));
        case C::FCMP_OLE: if (mode == 'M') return bnot(fcmp(C::FCMP_OLT, y, x)); return bit("or", fcmp(C::FCMP_OLT, x, y), fcmp(C::FCMP_OEQ, x, y));
        default: break;
        }
        if (isOp(x, "undef") || isOp(y, "undef")) return undef(1);
        if (isC(x) && isC(y)) { APFloat a(sem(w(x)), cv(x)), b(sem(w(y)), cv(y)); auto r = a.compare(b); return konst(1, p == C::FCMP_OLT ? r == APFloat::cmpLessThan : r == APFloat::cmpEqual); }
        // comparison does not see the sign of zero
        auto z = [&](Id v) { if (isC(v) && APFloat(sem(w(v)), cv(v)).isZero()) return konst(APInt(w(v), 0)); return v; };
        x = z(x); y = z(y);
        if (p == C::FCMP_OEQ) for (auto [k, v] : { std::make_pair(x, y), std::make_pair(y, x) })   // |v| == k
            if (isC(k) && isOp(v, "and") && n[v].a.size() == 2 && isC(n[v].a[1]) && isFabs(cv(n[v].a[1]), w(v)) && !cv(k).isSignBitSet() && !cv(k).isZero()) return bit("or", fcmp(p, k, n[v].a[0]), fcmp(p, fneg(k), n[v].a[0]));
        if (p == C::FCMP_OEQ) return bvar(comm("fcmp.oeq", 1, x, y));
        if (x == y) return konst(1, 0);
        // fabs(x) < 0 never
        return bvar(raw("fcmp.olt", 1, { x, y }));
    }
    // ---------------------------------------------------------------- floating point
    Id fneg(Id x)
    {
        if (isIte(x)) return lift1(x, [&](Id y) { return fneg(y); });
        if (real() && (polys.count(x) || isC(x))) { Poly p = poly(x); for (auto& t : p) t.second = -t.second; return fromPoly(p, w(x)); }
        return bit("xor", x, konst(APInt::getSignMask(w(x))));
    }
    Id fabs(Id x) { return bit("and", x, konst(APInt::getSignedMaxValue(w(x)))); }
    double dbl(const APInt& c) { APFloat f(sem(c.getBitWidth()), c); bool li; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); return f.convertToDouble(); }
    Poly poly(Id x)
    {
        auto it = polys.find(x); if (it != polys.end()) return it->second;
        Poly p;
        if (isC(x)) { double v = dbl(cv(x)); if (v != 0) p[{}] = v; return p; }
        if (isOp(x, "and") && n[x].a.size() == 2 && isC(n[x].a[1]) && (w(x) == 32 || w(x) == 64) && isFabs(cv(n[x].a[1]), w(x))) { p[{ raw("fabs", w(x), { n[x].a[0] }) }] = 1; return p; }
        if (isOp(x, "xor") && n[x].a.size() == 2 && isC(n[x].a[1]) && cv(n[x].a[1]).isSignMask() && (w(x) == 32 || w(x) == 64)) { p = poly(n[x].a[0]); for (auto& t : p) t.second = -t.second; return p; }
        p[{ x }] = 1; return p;
    }
    Id fromPoly(Poly p, unsigned W)
    {
        for (auto it = p.begin(); it != p.end();) if (it->second == 0) it = p.erase(it); else ++it;
        if (p.empty()) return konst(APInt(W, 0));
        if (p.size() == 1 && p.begin()->first.empty()) { APFloat f(p.begin()->second); bool li; f.convert(sem(W), APFloat::rmNearestTiesToEven, &li); Id c = konst(f.bitcastToAPInt()); return c; }
        if (p.size() == 1 && p.begin()->first.size() == 1 && p.begin()->second == 1.0 && w(p.begin()->first[0]) == W) return p.begin()->first[0];
        std::string k; for (auto& [m, c] : p) { char b[40]; snprintf(b, 40, "%.17g", c); k += b; for (auto a : m) { k += "*"; k += std::to_string(a); } k += "+"; }
        if (p.size() > 200000) { fail = "polynomial too large"; return 0; }
        Id r = raw("poly", W, {}, k); polys.emplace(r, p); return r;
    }
    Poly padd(const Poly& a, const Poly& b, double k) { Poly r = a; for (auto& [m, c] : b) { double& v = r[m]; double s = std::fabs(v) + std::fabs(c * k); v += c * k; if (std::fabs(v) <= 1e-16 * s) r.erase(m); } return r; }
    Poly pmul(const Poly& a, const Poly& b)
    {
        Poly r; for (auto& [m, c] : a) for (auto& [m2, c2] : b) { Mono x; std::merge(m.begin(), m.end(), m2.begin(), m2.end(), std::back_inserter(x)); simplifyMono(x); r[x] += c * c2; }
        for (auto it = r.begin(); it != r.end();) if (it->second == 0) it = r.erase(it); else ++it;
        return r;
    }
    void simplifyMono(Mono& m)
    {
        // x * inv(x) = 1, sqrt(x)*sqrt(x) handled by callers
        for (size_t i = 0; i < m.size(); ++i) if (n[m[i]].op == "inv") { auto it = std::find(m.begin(), m.end(), n[m[i]].a[0]); if (it != m.end()) { size_t j = it - m.begin(); m.erase(m.begin() + std::max(i, j)); m.erase(m.begin() + std::min(i, j)); simplifyMono(m); return; } }
    }
    Poly opaque(Id x) { Poly p; p[{ x }] = 1; return p; }
    Id fbin(const std::string& op, Id x, Id y)
    {
        if (isOp(x, "undef") || isOp(y, "undef")) return undef(w(x));
        if (real())
        {
            if ((isIte(x) || isIte(y)) && leaves(x) * leaves(y) <= 32) return lift2(x, y, [&](Id a, Id b) { return fbin(op, a, b); });
            if (op == "fadd" || op == "fsub") return fromPoly(padd(poly(x), poly(y), op == "fadd" ? 1 : -1), w(x));
            if (op == "fmul")
            {
                Poly p = poly(x), q = poly(y);
                if (mode == 'L') { if (p.size() > 1 && !(q.size() == 1 && q.begin()->first.empty())) p = opaque(x); if (q.size() > 1 && !(poly(x).size() == 1 && poly(x).begin()->first.empty())) q = opaque(y); }
                return fromPoly(pmul(p, q), w(x));
            }
            if (op == "fdiv")
            {
                Poly q = poly(y);
                if (q.size() == 1) { Poly r; Mono m; for (auto a : q.begin()->first) m.push_back(n[a].op == "inv" ? n[a].a[0] : raw("inv", w(a), { a })); std::sort(m.begin(), m.end()); r[m] = 1 / q.begin()->second; return fromPoly(pmul(poly(x), r), w(x)); }
                if (q.empty()) return raw("fdiv", w(x), { x, y });
                double lead = q.begin()->second; Poly qq; for (auto& [m, c] : q) qq[m] = c / lead;
                Id d = fromPoly(qq, w(x)); Poly r; r[{ raw("inv", w(x), { d }) }] = 1 / lead;
                return fromPoly(pmul(poly(x), r), w(x));
            }
            return raw(op, w(x), { x, y });
        }
        if (isC(x) && isC(y))
        {
            APFloat a(sem(w(x)), cv(x)), b(sem(w(y)), cv(y)); auto rm = APFloat::rmNearestTiesToEven;
            if (op == "fadd") a.add(b, rm); else if (op == "fsub") a.subtract(b, rm); else if (op == "fmul") a.multiply(b, rm); else if (op == "fdiv") a.divide(b, rm); else return raw(op, w(x), { x, y });
            return konst(a.bitcastToAPInt());
        }
        auto isF = [&](Id v, double k) { return isC(v) && dbl(cv(v)) == k && !(k == 0); };
        auto negOf = [&](Id v) -> Id { return n[v].op == "xor" && n[v].a.size() == 2 && isC(n[v].a[1]) && cv(n[v].a[1]).isSignMask() ? n[v].a[0] : -1; };
        if (op == "fsub" && isC(x) && cv(x).isSignMask()) return fneg(y);
        if (op == "fsub") { if (negOf(y) >= 0) return fbin("fadd", x, negOf(y)); if (isC(y) && cv(y).isZero()) return x; }
        if (op == "fadd") { if (isC(x) && cv(x).isSignMask()) return y; if (isC(y) && cv(y).isSignMask()) return x; if (negOf(y) >= 0) return raw("fsub", w(x), { x, negOf(y) }); if (negOf(x) >= 0) return raw("fsub", w(x), { y, negOf(x) }); }
        if (op == "fmul") { if (isF(x, 1)) return y; if (isF(y, 1)) return x; if (isF(x, -1)) return fneg(y); if (isF(y, -1)) return fneg(x); if (negOf(x) >= 0) return fneg(fbin(op, negOf(x), y)); if (negOf(y) >= 0) return fneg(fbin(op, x, negOf(y))); }
        if (op == "fdiv") { if (isF(y, 1)) return x; if (negOf(x) >= 0) return fneg(fbin(op, negOf(x), y)); if (negOf(y) >= 0) return fneg(fbin(op, x, negOf(y)));
            if (isC(y)) { APFloat f(sem(w(y)), cv(y)), inv(sem(w(y))); if (f.getExactInverse(&inv)) return fbin("fmul", x, konst(inv.bitcastToAPInt())); } }
        if (op == "fadd" || op == "fmul") return comm(op.c_str(), w(x), x, y);
        return raw(op, w(x), { x, y });
    }
    // sums of products of the same atoms up to the tolerance
    bool samePoly(const Poly& p, const Poly& q, double tol, int depth)
    {
        double mx = 0; for (auto& t : p) mx = std::max(mx, std::fabs(t.second)); for (auto& t : q) mx = std::max(mx, std::fabs(t.second));
        Poly d = padd(p, q, -1); bool ok = true; for (auto& t : d) if (std::fabs(t.second) > tol * mx) { ok = false; break; }
        if (ok) return true;
        // atoms may themselves agree only up to the tolerance
        if (p.size() != q.size() || p.size() > 64) return false;
        std::vector<char> used(q.size(), 0);
        for (auto& [m, c] : p)
        {
            bool f = false; size_t j = 0;
            for (auto& [m2, c2] : q) { if (!used[j] && std::fabs(c - c2) <= tol * mx && monoSame(m, m2, tol, depth + 1)) { used[j] = 1; f = true; break; } ++j; }
            if (!f) return false;
        }
        return true;
    }
    // multiply by the divisor: reciprocals of v disappear from every term that has one
    Poly clear(const Poly& p, Id inv, const Poly& den)
    {
        Poly r; for (auto& [m, c] : p) { Mono k = m; auto it = std::find(k.begin(), k.end(), inv); if (it != k.end()) { k.erase(it); r[k] += c; } else { Poly t; t[k] = c; for (auto& [m2, c2] : pmul(t, den)) r[m2] += c2; } }
        return r;
    }
    // tolerance comparison of real normal forms
    bool same(Id x, Id y, double tol, int depth = 0)
    {
        if (x == y) return true;
        if (depth > 40 || w(x) != w(y)) return false;
        if (real() && (polys.count(x) || polys.count(y) || isC(x) || isC(y)))
        {
            Poly p = poly(x), q = poly(y); 
            if (samePoly(p, q, tol, depth)) return true;
            // quotients: compare after multiplying both sides by every divisor
            bool any = false;
            for (int step = 0; step < 12 && p.size() <= 400 && q.size() <= 400; ++step)
            {
                Id v = -1; for (auto* s : { &p, &q }) for (auto& t : *s) for (auto a : t.first) if (v < 0 && n[a].op == "inv") v = a;
                if (v < 0) break;
                any = true; Poly den = poly(n[v].a[0]); p = clear(p, v, den); q = clear(q, v, den);
            }
            return any && samePoly(p, q, tol * 8, depth);
        }
        const Node &X = n[x], &Y = n[y];
        if (X.op != Y.op || X.a.size() != Y.a.size() || X.p != Y.p || X.a.empty()) return false;
        for (size_t i = 0; i < X.a.size(); ++i) if (!same(X.a[i], Y.a[i], tol, depth + 1)) return false;
        return true;
    }
    bool monoSame(const Mono& a, const Mono& b, double tol, int depth)
    {
        if (a.size() != b.size()) return false;
        std::vector<char> used(b.size(), 0);
        for (auto x : a) { bool f = false; for (size_t j = 0; j < b.size(); ++j) if (!used[j] && same(x, b[j], tol, depth)) { used[j] = 1; f = true; break; } if (!f) return false; }
        return true;
    }
    std::string str(Id x, int d = 0)
    {
        const Node& N = n[x];
        if (N.op == "c") { if ((N.w == 32 || N.w == 64)) { SmallString<40> s; N.c.toStringSigned(s, 10); double v = dbl(N.c); std::string r = s.str().str(); if (std::fabs(v) > 1e-20 && std::fabs(v) < 1e20) { char b[40]; snprintf(b, 40, "%g", v); r = std::string(b); } return r; } SmallString<40> s; N.c.toStringSigned(s, 10); return s.str().str(); }
        if (N.op == "in") { auto q = N.p.rfind(':'); return N.p.substr(0, q) + "[" + (N.a.empty() ? "" : str(N.a[0], d + 1) + " + ") + N.p.substr(q + 1) + "]"; }
        if (d > 5) return "...";
        if (N.op == "poly") { std::string r; unsigned k = 0; for (auto& [m, c] : polys[x]) { if (k++ > 6) { r += "+..."; break; } char b[40]; snprintf(b, 40, "%+.9g", c); r += b; for (auto a : m) r += "*" + str(a, d + 2); } return "(" + r + ")"; }
        std::string r = N.op; if (!N.p.empty()) r += "." + N.p; if (N.a.empty()) return r;
        r += "("; for (size_t i = 0; i < N.a.size() && i < 12; ++i) r += (i ? "," : "") + str(N.a[i], d + 1); return r + ")";
    }
};
} // namespace flow

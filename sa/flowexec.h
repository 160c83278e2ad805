#pragma once
#include "flow.h"
#include "llvm/ADT/APSInt.h"
namespace flow
{
struct Byte { Id node; int idx; bool operator==(const Byte& o) const { return node == o.node && idx == o.idx; } };
typedef std::map<std::pair<std::string, int64_t>, Byte> Mem;

struct Exec
{
    Ctx& C; Module& M; const DataLayout& DL;
    std::map<const Value*, std::vector<Id>> env; Mem mem; std::vector<Id> ret; std::vector<std::vector<Id>> eff;
    std::set<std::pair<std::string, int64_t>> rd; std::set<std::tuple<std::string, Id, int64_t>> drd; std::map<std::string, uint64_t> wideAlign, smallAlign; std::set<std::string> dirty;
    std::string why; int nalloca = 0, depth = 0; Id guard; unsigned steps = 0;
    std::map<std::string, Id> baseNode; std::map<std::string, const GlobalVariable*> globals; std::set<Id> opaques;
    Exec(Ctx& c, Module& m) : C(c), M(m), DL(m.getDataLayout()) { guard = C.konst(1, 1); }
    Id base(const std::string& n) { return C.raw("base", 64, {}, n); }
    bool hasOpaque(Id x) { std::set<Id> s; std::vector<Id> q{ x }; while (!q.empty()) { Id y = q.back(); q.pop_back(); if (!s.insert(y).second) continue; auto& N = C.n[y]; if (N.op == "call" || N.op == "x86") return true; for (auto a : N.a) q.push_back(a); auto it = C.polys.find(y); if (it != C.polys.end()) for (auto& [m, c] : it->second) for (auto a : m) q.push_back(a); } return false; }
    std::string effStr(size_t i) { std::string r; for (auto x : eff[i]) r += C.str(x) + " "; return r; }

    // ------------------------------------------------------------ memory
    Id globalBytes(const GlobalVariable* G, int64_t off, unsigned bytes)
    {
        if (!G->hasInitializer() || !G->isConstant() && !G->hasLocalLinkage()) return -1;
        Type* T = Type::getIntNTy(M.getContext(), bytes * 8);
        auto* K = ConstantFoldLoadFromConst(const_cast<Constant*>(G->getInitializer()), T, APInt(64, off), DL);
        if (!K) return -1;
        if (isa<UndefValue>(K)) return C.undef(bytes * 8);
        if (auto* I = dyn_cast<ConstantInt>(K)) return C.konst(I->getValue());
        return -1;
    }
    bool isAlloca(const std::string& b) { return b[0] == '%' && b[1] == 'a'; }
    Id byteAt(const std::string& b, int64_t off)
    {
        auto it = mem.find({ b, off });
        if (it != mem.end()) return C.ext(it->second.node, it->second.idx * 8, 8);
        if (b[0] == '%') { auto g = globals.find(b); if (g != globals.end()) { Id r = globalBytes(g->second, off, 1); if (r >= 0) return r; } else if (isAlloca(b)) return C.undef(8); }
        return C.in({}, b, off, 8);
    }
    Id load(const std::string& b, int64_t off, unsigned W)
    {
        unsigned n = (W + 7) / 8;
        // whole node?
        auto it = mem.find({ b, off });
        if (it == mem.end())
        {
            bool none = true; for (unsigned i = 1; i < n && none; ++i) none = !mem.count({ b, off + i });
            if (none)
            {
                auto g = globals.find(b);
                if (g != globals.end()) { Id r = globalBytes(g->second, off, n); if (r >= 0) return W == n * 8 ? r : C.ext(r, 0, W); }
                if (isAlloca(b)) return C.undef(W);
                Id r = C.in({}, b, off, n * 8);
                return W == n * 8 ? r : C.ext(r, 0, W);
            }
        }
        else if (it->second.idx == 0 && C.w(it->second.node) == W)
        {
            bool all = true; for (unsigned i = 1; i < n && all; ++i) { auto q = mem.find({ b, off + i }); all = q != mem.end() && q->second.node == it->second.node && q->second.idx == (int)i; }
            if (all) return it->second.node;
        }
        std::vector<Id> p; for (unsigned i = 0; i < n; ++i) p.push_back(byteAt(b, off + i));
        Id r = C.cat(p);
        return W == n * 8 ? r : C.ext(r, 0, W);
    }
    void store(const std::string& b, int64_t off, Id v)
    {
        unsigned W = C.w(v); if (W % 8) { v = C.zext(v, (W + 7) / 8 * 8); W = C.w(v); }
        for (unsigned i = 0; i < W / 8; ++i) mem[{ b, off + i }] = { v, (int)i };
    }
    // address -> (base, constant offset) or (base, symbolic offset)
    bool addr(Id p, std::string& b, int64_t& off, Id& sym)
    {
        sym = -1;
        if (C.isOp(p, "base")) { b = C.n[p].p; off = 0; return true; }
        if (C.isOp(p, "lin"))
        {
            const auto N = C.n[p]; Ctx::Lin L; std::string bb; int nb = 0; Id cand = -1; 
            for (size_t i = 0; i < N.a.size(); i += 2)
                if (N.a[i] && C.isOp(N.a[i], "base") && C.cv(N.a[i + 1]).isOne()) { bb = C.n[N.a[i]].p; ++nb; }
                else L.emplace(N.a[i] == 0 ? -1 : N.a[i], C.cv(N.a[i + 1]));
            if (nb != 1)
            {
                // a pointer loaded from memory acts as its own region
                if (nb) return false;
                int k = 0; for (auto& [x, c] : L) if (x != -1 && c.isOne() && C.isOp(x, "in") && C.n[x].a.empty()) { cand = x; ++k; }
                if (k != 1) return false;
                L.erase(cand); bb = "*" + C.n[cand].p;
            }
            b = bb;
            if (L.empty()) { off = 0; return true; }
            { Ctx::Lin Z; for (auto& [x, c] : L) if (x == -1) { auto q = Z.find(-1); if (q == Z.end()) Z.emplace(-1, c); else q->second += c; } else C.terms(x, Z, c); L.swap(Z); }
            if (L.size() == 1 && L.begin()->first == -1) { off = L.begin()->second.getSExtValue(); return true; }
            sym = C.fromLin(L, 64); off = 0; return true;
        }
        if (C.isOp(p, "in") && C.n[p].a.empty()) { b = "*" + C.n[p].p; off = 0; return true; }
        return false;
    }
    // ------------------------------------------------------------ values
    static unsigned elems(Type* T) { if (auto* V = dyn_cast<FixedVectorType>(T)) return V->getNumElements(); if (auto* S = dyn_cast<StructType>(T)) { unsigned n = 0; for (auto* e : S->elements()) n += elems(e); return n; } if (auto* A = dyn_cast<ArrayType>(T)) return A->getNumElements() * elems(A->getElementType()); return 1; }
    unsigned ew(Type* T) { T = T->getScalarType(); if (T->isPointerTy()) return 64; return DL.getTypeSizeInBits(T); }
    void widths(Type* T, std::vector<std::pair<unsigned, uint64_t>>& r, uint64_t off = 0)   // (width bits, byte offset)
    {
        if (auto* V = dyn_cast<FixedVectorType>(T)) { unsigned w = ew(T); for (unsigned i = 0; i < V->getNumElements(); ++i) r.push_back({ w, off * 8 + i * w }); return; }
        if (auto* S = dyn_cast<StructType>(T)) { auto* L = DL.getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); ++i) widths(S->getElementType(i), r, off + L->getElementOffset(i)); return; }
        if (auto* A = dyn_cast<ArrayType>(T)) { uint64_t s = DL.getTypeAllocSize(A->getElementType()); for (unsigned i = 0; i < A->getNumElements(); ++i) widths(A->getElementType(), r, off + i * s); return; }
        r.push_back({ ew(T), off * 8 });
    }
    std::vector<Id> constant(const Constant* K)
    {
        Type* T = K->getType(); std::vector<Id> r;
        if (auto* I = dyn_cast<ConstantInt>(K)) return { C.konst(I->getValue()) };
        if (auto* F = dyn_cast<ConstantFP>(K)) return { C.konst(F->getValueAPF().bitcastToAPInt()) };
        if (isa<ConstantPointerNull>(K)) return { C.konst(64, 0) };
        if (isa<UndefValue>(K)) { std::vector<std::pair<unsigned, uint64_t>> w; widths(T, w); for (auto& x : w) r.push_back(C.undef(x.first)); return r; }
        if (isa<ConstantAggregateZero>(K)) { std::vector<std::pair<unsigned, uint64_t>> w; widths(T, w); for (auto& x : w) r.push_back(C.konst(x.first, 0)); return r; }
        if (auto* D = dyn_cast<ConstantDataSequential>(K)) { for (unsigned i = 0; i < D->getNumElements(); ++i) r.push_back(constant(D->getElementAsConstant(i))[0]); return r; }
        if (isa<ConstantVector>(K) || isa<ConstantStruct>(K) || isa<ConstantArray>(K)) { for (auto& u : K->operands()) { auto v = constant(cast<Constant>(u)); r.insert(r.end(), v.begin(), v.end()); } return r; }
        if (auto* G = dyn_cast<GlobalVariable>(K)) { std::string b = "%g" + G->getName().str(); globals[b] = G; return { base(b) }; }
        if (auto* F = dyn_cast<Function>(K)) return { base("%f" + F->getName().str()) };
        if (auto* E = dyn_cast<ConstantExpr>(K))
        {
            if (E->getOpcode() == Instruction::GetElementPtr) { APInt o(64, 0); if (cast<GEPOperator>(E)->accumulateConstantOffset(DL, o)) return { C.add(constant(E->getOperand(0))[0], C.konst(o)) }; }
            if (E->isCast()) return constant(E->getOperand(0));
        }
        why = "constant not understood"; return { C.undef(64) };
    }
    std::vector<Id> val(const Value* V)
    {
        if (auto* K = dyn_cast<Constant>(V)) return constant(K);
        auto it = env.find(V); if (it != env.end()) return it->second;
        if (why.empty()) { std::string t; raw_string_ostream o(t); V->print(o); why = "value not available: " + o.str(); }
        return std::vector<Id>(elems(V->getType()), C.undef(std::max(1u, ew(V->getType()->isStructTy() ? Type::getInt64Ty(M.getContext()) : V->getType()))));
    }
    std::vector<Id> recast(const std::vector<Id>& v, Type* T)
    {
        std::vector<std::pair<unsigned, uint64_t>> w; widths(T, w);
        if (w.size() == v.size()) { bool eq = true; for (size_t i = 0; i < v.size(); ++i) eq &= C.w(v[i]) == w[i].first; if (eq) return v; }
        Id whole = -1; std::vector<Id> r; std::vector<uint64_t> start; uint64_t pos = 0; for (auto x : v) { start.push_back(pos); pos += C.w(x); }
        for (auto& [k, off] : w)
        {
            std::vector<Id> p; for (size_t i = 0; i < v.size(); ++i) { uint64_t l = std::max<uint64_t>(off, start[i]), h = std::min<uint64_t>(off + k, start[i] + C.w(v[i])); if (l < h) p.push_back(C.ext(v[i], l - start[i], h - l)); }
            r.push_back(C.cat(p));
        }
        (void)whole; return r;
    }
    // symbolic offset -> symbolic part without its constant
    void splitConst(Id& a, int64_t& off)
    {
        Ctx::Lin L; C.terms(a, L, APInt(64, 1)); auto it = L.find(-1);
        if (it == L.end()) return;
        int64_t k = it->second.getSExtValue(); L.erase(it);
        if (k) { off += k; a = C.fromLin(L, 64); }
    }
    void access(const std::string& b, Type* T, uint64_t align) { if (b[0] != '%' && DL.getTypeStoreSize(T) >= 1) { auto& m = DL.getTypeStoreSize(T) >= 16 ? wideAlign : smallAlign; m[b] = std::max(m[b], align); } }
    std::vector<Id> loadTy(Id p, Type* T, uint64_t align = 0)
    {
        std::string b; int64_t off; Id sym; std::vector<std::pair<unsigned, uint64_t>> w; widths(T, w); std::vector<Id> r;
        if (!addr(p, b, off, sym)) { if (why.empty()) why = "address not understood: " + C.str(p); for (auto& x : w) r.push_back(C.undef(x.first)); return r; }
        access(b, T, align);
        if (dirty.count(b)) { if (why.empty()) why = "read after a computed write of " + b; }
        for (auto& [k, o] : w)
        {
            if (sym >= 0)
            {
                Id a = sym; int64_t co = o / 8; splitConst(a, co);
                if (b[0] == '%' && !globals.count(b)) { if (why.empty()) why = "computed read of a local object"; }
                for (auto& [key, by] : mem) if (key.first == b) { if (why.empty()) why = "computed read after a write of " + b; break; }
                unsigned nb = (o % 8 + k + 7) / 8;
                if (b[0] != '%') for (unsigned i = 0; i < nb; ++i) drd.insert({ b, a, co + i });
                Id x = C.in({ a }, b, co, nb * 8); r.push_back(nb * 8 == k ? x : C.ext(x, o % 8, k)); continue;
            }
            if (k % 8 == 0) { int64_t q = off + o / 8; if (b[0] != '%') for (unsigned i = 0; i < k / 8; ++i) rd.insert({ b, q + i }); r.push_back(load(b, q, k)); }
            else { unsigned q = off + o / 8; unsigned nb = (o % 8 + k + 7) / 8; if (b[0] != '%') for (unsigned i = 0; i < nb; ++i) rd.insert({ b, q + i }); r.push_back(C.ext(load(b, q, nb * 8), o % 8, k)); }
        }
        return r;
    }
    void storeTy(Id p, Type* T, std::vector<Id> v, uint64_t align = 0)
    {
        std::string b; int64_t off; Id sym; std::vector<std::pair<unsigned, uint64_t>> w; widths(T, w);
        if (!addr(p, b, off, sym)) { if (why.empty()) why = "address not understood: " + C.str(p); return; }
        access(b, T, align); bool sub = false; for (auto& x : w) sub |= x.first % 8 != 0 || x.second % 8 != 0;
        if (sub && w.size() > 1) { Id c = C.cat(v); unsigned W = C.w(c); if (W % 8) c = C.zext(c, (W + 7) / 8 * 8); v = { c }; w = { { C.w(c), 0 } }; }
        for (size_t i = 0; i < w.size(); ++i)
        {
            if (sym >= 0) { if (isAlloca(b)) { if (why.empty()) why = "computed write of a local object"; } dirty.insert(b); Id a = w[i].second ? C.add(sym, C.konst(64, w[i].second / 8)) : sym; eff.push_back({ C.raw("store", 1, {}, b), guard, a, v[i] }); continue; }
            store(b, off + w[i].second / 8, v[i]);
        }
    }
    // ------------------------------------------------------------ instructions
    Id fmath(const std::string& name, std::vector<Id> a) { if (C.real() && name == "sqrt" && !C.isIte(a[0])) { Id r = C.raw(name, 64, { C.fromPoly(C.poly(a[0]), 64) }); return C.fromPoly(C.poly(r), C.w(a[0])); } return C.raw(name, C.w(a[0]), a); }
    Id fma(Id a, Id b, Id c, bool fused)
    {
        if (C.real() || !fused) return C.fbin("fadd", C.fbin("fmul", a, b), c);
        if (a > b) std::swap(a, b); return C.raw("fma", C.w(a), { a, b, c });
    }
    Id x86min(Id a, Id b) { return C.ite(C.fcmp(CmpInst::FCMP_OLT, a, b), a, b); }
    Id x86max(Id a, Id b) { return C.ite(C.fcmp(CmpInst::FCMP_OLT, b, a), a, b); }
    Id conv(unsigned op, Id x, unsigned k, bool fp)
    {
        if (C.isOp(x, "undef")) return C.undef(k);
        switch (op)
        {
        case Instruction::Trunc: return C.ext(x, 0, k);
        case Instruction::ZExt: return C.zext(C.asB(x), k) >= 0 && C.w(x) == 1 ? C.ite(x, C.konst(k, 1), C.konst(k, 0)) : C.zext(x, k);
        case Instruction::SExt: return C.sext(x, k);
        case Instruction::IntToPtr: case Instruction::PtrToInt: return C.w(x) == k ? x : C.w(x) > k ? C.ext(x, 0, k) : C.zext(x, k);
        }
        if (op == Instruction::FPExt && C.real() && !C.isIte(x)) { return C.fromPoly(C.poly(x), k); }
        if (op == Instruction::FPTrunc && C.real() && !C.isIte(x)) { return C.fromPoly(C.poly(x), k); }
        if (C.isIte(x) && C.leaves(x) <= 8) return C.lift1(x, [&](Id y) { return conv(op, y, k, fp); });
        if (C.isC(x))
        {
            if (op == Instruction::FPExt || op == Instruction::FPTrunc) { APFloat f(Ctx::sem(C.w(x)), C.cv(x)); bool li; f.convert(Ctx::sem(k), APFloat::rmNearestTiesToEven, &li); return C.konst(f.bitcastToAPInt()); }
            if (op == Instruction::SIToFP || op == Instruction::UIToFP) { APFloat f(Ctx::sem(k)); f.convertFromAPInt(C.cv(x), op == Instruction::SIToFP, APFloat::rmNearestTiesToEven); return C.konst(f.bitcastToAPInt()); }
            if (op == Instruction::FPToSI || op == Instruction::FPToUI) { APFloat f(Ctx::sem(C.w(x)), C.cv(x)); APSInt r(k, op == Instruction::FPToUI); bool ex; if (f.convertToInteger(r, APFloat::rmTowardZero, &ex) != APFloat::opInvalidOp) return C.konst(r); return C.undef(k); }
        }
        // uitofp of a value whose sign bit is clear equals sitofp
        std::string nm = Instruction::getOpcodeName(op);
        if (nm == "uitofp" && C.isOp(x, "cat") && C.isC(C.n[x].a.back()) && C.cv(C.n[x].a.back()).isZero()) nm = "sitofp";
        return C.raw(nm, k, { x });
    }
    std::vector<Id> call(const CallBase* CB)
    {
        auto* F = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
        std::vector<std::vector<Id>> a; for (auto& u : CB->args()) { if (u->getType()->isMetadataTy()) { a.push_back({}); continue; } a.push_back(val(u)); }
        Type* T = CB->getType(); unsigned N = T->isVoidTy() ? 0 : elems(T);
        std::vector<Id> r(N); auto each = [&](auto f) { for (unsigned i = 0; i < N; ++i) r[i] = f(i); return r; };
        if (!F) { why = "indirect call"; for (auto& x : r) x = C.undef(64); return r; }
        StringRef nm = F->getName(); unsigned W = T->isVoidTy() ? 0 : T->isStructTy() ? 0 : ew(T);
        auto has = [&](const char* s) { return nm.find(s) != StringRef::npos; };
        if (F->isIntrinsic())
        {
            switch (F->getIntrinsicID())
            {
            case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::invariant_start: return r;
            case Intrinsic::expect: return a[0];
            case Intrinsic::fabs: return each([&](unsigned i) { return C.lift1(a[0][i], [&](Id x) { return C.real() ? C.raw("fabs", W, { x }) : C.fabs(x); }); });
            case Intrinsic::sqrt: return each([&](unsigned i) { return fmath("sqrt", { a[0][i] }); });
            case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round: case Intrinsic::roundeven:
                return each([&](unsigned i) { std::string o = Intrinsic::getBaseName(F->getIntrinsicID()).str(); return fmath(o == "llvm.nearbyint" ? "llvm.rint" : o, { a[0][i] }); });
            case Intrinsic::fma: return each([&](unsigned i) { return fma(a[0][i], a[1][i], a[2][i], true); });
            case Intrinsic::fmuladd: return each([&](unsigned i) { return fma(a[0][i], a[1][i], a[2][i], false); });
            case Intrinsic::copysign: return each([&](unsigned i) { return C.bit("or", C.fabs(a[0][i]), C.bit("and", a[1][i], C.konst(APInt::getSignMask(W)))); });
            case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::minimum: case Intrinsic::maximum: return each([&](unsigned i) { if (C.mode == 'M') return C.order(F->getIntrinsicID() == Intrinsic::minnum || F->getIntrinsicID() == Intrinsic::minimum ? "fmin" : "fmax", W, a[0][i], a[1][i]); return C.comm(Intrinsic::getBaseName(F->getIntrinsicID()).str().c_str(), W, a[0][i], a[1][i]); });
            case Intrinsic::smin: return each([&](unsigned i) { return mm("smin", a[0][i], a[1][i]); });
            case Intrinsic::smax: return each([&](unsigned i) { return mm("smax", a[0][i], a[1][i]); });
            case Intrinsic::umin: return each([&](unsigned i) { return mm("umin", a[0][i], a[1][i]); });
            case Intrinsic::umax: return each([&](unsigned i) { return mm("umax", a[0][i], a[1][i]); });
            case Intrinsic::abs: return each([&](unsigned i) { return C.ite(C.icmp(CmpInst::ICMP_SLT, a[0][i], C.konst(W, 0)), C.neg(a[0][i]), a[0][i]); });
            case Intrinsic::sadd_sat: return each([&](unsigned i) { return ssat(a[0][i], a[1][i], false); });
            case Intrinsic::ssub_sat: return each([&](unsigned i) { return ssat(a[0][i], a[1][i], true); });
            case Intrinsic::uadd_sat: return each([&](unsigned i) { return C.lift2(a[0][i], a[1][i], [&](Id x, Id y) { return C.comm("uadd.sat", W, x, y); }); });
            case Intrinsic::usub_sat: return each([&](unsigned i) { return C.lift2(a[0][i], a[1][i], [&](Id x, Id y) { return C.ite(C.icmp(CmpInst::ICMP_ULT, y, x), C.sub(x, y), C.konst(APInt(W, 0))); }); });
            case Intrinsic::uadd_with_overflow: { r.resize(2); r[0] = C.add(a[0][0], a[1][0]); r[1] = C.icmp(CmpInst::ICMP_ULT, r[0], a[0][0]); return r; }
            case Intrinsic::bswap: { unsigned w0 = W; return each([&](unsigned i) { std::vector<Id> p; for (int k = w0 / 8 - 1; k >= 0; --k) p.push_back(C.ext(a[0][i], k * 8, 8)); return C.cat(p); }); }
            case Intrinsic::bitreverse: { return each([&](unsigned i) { std::vector<Id> p; for (int k = W - 1; k >= 0; --k) p.push_back(C.ext(a[0][i], k, 1)); return C.cat(p); }); }
            case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: return each([&](unsigned i) { return C.raw(Intrinsic::getBaseName(F->getIntrinsicID()).str(), W, { a[0][i] }); });
            case Intrinsic::fshl: case Intrinsic::fshr: return each([&](unsigned i) -> Id {
                if (!C.isC(a[2][i])) return C.raw(Intrinsic::getBaseName(F->getIntrinsicID()).str(), W, { a[0][i], a[1][i], a[2][i] });
                unsigned s = C.cv(a[2][i]).urem(W); Id c = C.cat({ a[1][i], a[0][i] }); return F->getIntrinsicID() == Intrinsic::fshl ? C.ext(c, W - s, W) : C.ext(c, s, W); });
            case Intrinsic::memcpy: case Intrinsic::memmove:
            {
                if (!C.isC(a[2][0])) { why = "copy of unknown length"; return r; }
                uint64_t len = C.cv(a[2][0]).getZExtValue(); std::string b1, b2; int64_t o1, o2; Id s1, s2;
                if (!len) return r;
                if (!addr(a[0][0], b1, o1, s1) || !addr(a[1][0], b2, o2, s2)) { why = "copy address not understood"; return r; }
                if (s1 >= 0 || s2 >= 0)
                {
                    unsigned step = len % 8 == 0 ? 8 : len % 4 == 0 ? 4 : 1; for (uint64_t i = 0; i < len; i += step) { Type* IT = Type::getIntNTy(M.getContext(), step * 8); auto v = loadTy(C.add(a[1][0], C.konst(64, i)), IT); storeTy(C.add(a[0][0], C.konst(64, i)), IT, v); } return r;
                }
                std::vector<std::pair<int64_t, Byte>> tmp; 
                for (uint64_t i = 0; i < len; ++i)
                {
                    if (b2[0] != '%') rd.insert({ b2, o2 + (int64_t)i });
                    auto it = mem.find({ b2, o2 + (int64_t)i }); tmp.push_back({ o1 + i, it != mem.end() ? it->second : Byte{ byteAt(b2, o2 + i), 0 } });
                }
                // wider granularity for untouched sources
                for (auto& [o, b] : tmp) mem[{ b1, o }] = b;
                return r;
            }
            case Intrinsic::memset:
            {
                if (!C.isC(a[2][0])) { why = "fill of unknown length"; return r; }
                uint64_t len = C.cv(a[2][0]).getZExtValue(); std::string b; int64_t o; Id s; if (!len) return r; if (!addr(a[0][0], b, o, s) || s >= 0) { why = "fill address not understood"; return r; }
                for (uint64_t i = 0; i < len; ++i) mem[{ b, o + (int64_t)i }] = { a[1][0], 0 };
                return r;
            }
            case Intrinsic::vector_reduce_fadd: case Intrinsic::vector_reduce_fmul: { Id x = a[0][0]; for (auto y : a[1]) x = C.fbin(F->getIntrinsicID() == Intrinsic::vector_reduce_fadd ? "fadd" : "fmul", x, y); return { x }; }
            case Intrinsic::vector_reduce_add: { Id x = a[0][0]; for (size_t i = 1; i < a[0].size(); ++i) x = C.add(x, a[0][i]); return { x }; }
            case Intrinsic::vector_reduce_mul: { Id x = a[0][0]; for (size_t i = 1; i < a[0].size(); ++i) x = C.mul(x, a[0][i]); return { x }; }
            case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_xor: { const char* o = F->getIntrinsicID() == Intrinsic::vector_reduce_and ? "and" : F->getIntrinsicID() == Intrinsic::vector_reduce_or ? "or" : "xor"; Id x = a[0][0]; for (size_t i = 1; i < a[0].size(); ++i) x = C.bit(o, x, a[0][i]); return { x }; }
            case Intrinsic::vector_reduce_fmin: case Intrinsic::vector_reduce_fmax: if (C.mode == 'M') { Id x = a[0][0]; for (size_t i = 1; i < a[0].size(); ++i) x = C.order(F->getIntrinsicID() == Intrinsic::vector_reduce_fmin ? "fmin" : "fmax", C.w(x), x, a[0][i]); return { x }; } break;
            case Intrinsic::vector_reduce_smin: case Intrinsic::vector_reduce_smax: case Intrinsic::vector_reduce_umin: case Intrinsic::vector_reduce_umax: { const char* o = F->getIntrinsicID() == Intrinsic::vector_reduce_smin ? "smin" : F->getIntrinsicID() == Intrinsic::vector_reduce_smax ? "smax" : F->getIntrinsicID() == Intrinsic::vector_reduce_umin ? "umin" : "umax"; Id x = a[0][0]; for (size_t i = 1; i < a[0].size(); ++i) x = mm(o, x, a[0][i]); return { x }; }
            case Intrinsic::masked_load:
            {
                Type* ET = T->getScalarType(); for (unsigned i = 0; i < N; ++i) { Id m = C.asB(a[2][i]); if (C.isC(m)) { r[i] = C.cv(m).isZero() ? a[3][i] : loadTy(C.add(a[0][0], C.konst(64, i * W / 8)), ET)[0]; } else { auto keep = rd; Id v = loadTy(C.add(a[0][0], C.konst(64, i * W / 8)), ET)[0]; r[i] = C.ite(m, v, a[3][i]); } } return r;
            }
            case Intrinsic::masked_gather:
            {
                Type* ET = T->getScalarType(); for (unsigned i = 0; i < N; ++i) { Id m = C.asB(a[2][i]); if (C.isC(m) && C.cv(m).isZero()) { r[i] = a[3][i]; continue; } Id v = loadTy(a[0][i], ET)[0]; r[i] = C.isC(m) ? v : C.ite(m, v, a[3][i]); } return r;
            }
            case Intrinsic::masked_scatter:
            {
                Type* ET = CB->getArgOperand(0)->getType()->getScalarType(); for (unsigned i = 0; i < a[0].size(); ++i) { Id m = C.asB(a[3][i]); if (C.isC(m)) { if (!C.cv(m).isZero()) storeTy(a[1][i], ET, { a[0][i] }); } else why = "scatter with a computed mask"; } return r;
            }
            case Intrinsic::masked_store:
            {
                Type* ET = CB->getArgOperand(0)->getType()->getScalarType(); unsigned ww = ew(ET);
                for (unsigned i = 0; i < a[0].size(); ++i) { Id m = C.asB(a[3][i]); Id p = C.add(a[1][0], C.konst(64, i * ww / 8)); if (C.isC(m)) { if (!C.cv(m).isZero()) storeTy(p, ET, { a[0][i] }); } else { Id old = loadTy(p, ET)[0]; storeTy(p, ET, { C.ite(m, a[0][i], old) }); } } return r;
            }
            default: break;
            }
            // target intrinsics
            if (has("llvm.x86."))
            {
                auto sign = [&](Id x) { return C.ext(x, C.w(x) - 1, 1); };
                if (has(".min.ps") || has(".min.pd")) return each([&](unsigned i) { return x86min(a[0][i], a[1][i]); });
                if (has(".max.ps") || has(".max.pd")) return each([&](unsigned i) { return x86max(a[0][i], a[1][i]); });
                if (has(".min.ss") || has(".min.sd")) return each([&](unsigned i) { return i ? a[0][i] : x86min(a[0][i], a[1][i]); });
                if (has(".max.ss") || has(".max.sd")) return each([&](unsigned i) { return i ? a[0][i] : x86max(a[0][i], a[1][i]); });
                if (has("blendv")) return each([&](unsigned i) { return C.ite(C.asB(sign(a[2][i])), a[1][i], a[0][i]); });
                if (has("movmsk")) { std::vector<Id> p; for (auto x : a[0]) p.push_back(sign(x)); Id c = C.cat(p); return { C.zext(c, 32) }; }
                if (has(".round.") || has("rndscale"))
                {
                    if (has(".round.ss") || has(".round.sd")) { Id im = a[2][0]; r = a[0]; r[0] = rnd(a[1][0], im); return r; }
                    bool mask = has("mask"); Id im = a[1][0];
                    r.resize(N); for (unsigned i = 0; i < N; ++i) r[i] = rnd(a[0][i], im);
                    if (mask) { for (unsigned i = 0; i < N; ++i) r[i] = C.ite(C.asB(C.ext(a[3][0], i, 1)), r[i], a[2][i]); }
                    return r;
                }
                if (has("cvtps2dq") || has("cvtpd2dq")) return each([&](unsigned i) { return i < a[0].size() ? C.raw("lrint", 32, { a[0][i] }) : C.konst(32, 0); });
                if (has("cvtpd2ps") || has("cvt.pd2.ps.256")) return each([&](unsigned i) { return i < a[0].size() ? C.lift1(a[0][i], [&](Id x) { return conv(Instruction::FPTrunc, x, 32, true); }) : C.konst(32, 0); });
                for (auto [k, o] : { std::make_pair("psllv", "shl"), std::make_pair("psrlv", "lshr"), std::make_pair("psrav", "ashr") }) if (has(k) && a.size() == 2) return each([&](unsigned i) { return C.shift(o, a[0][i], a[1][i]); });
                if (has("cvttsd2si") || has("cvttss2si")) return { C.raw("fptosi", W, { a[0][0] }) };
                if (has("cvttps2dq") || has("cvttpd2dq") || has("cvtt.ps2dq.256") || has("cvtt.pd2dq.256")) return each([&](unsigned i) { return i < a[0].size() ? C.raw("fptosi", 32, { a[0][i] }) : C.konst(32, 0); });
                if (has(".rcp.") || has(".rsqrt.")) {}
                if (has("pmadd.wd") || has("pmulh") || has("packss") || has("packus")) {
                    if (has("packss") || has("packus"))
                    {
                        bool us = has("packus"); unsigned per = 128 / C.w(a[0][0]), k = 0;
                        for (unsigned lane = 0; lane < a[0].size() / per; ++lane) for (int s = 0; s < 2; ++s) for (unsigned j = 0; j < per; ++j)
                        {
                            Id x = a[s][lane * per + j]; unsigned w0 = C.w(x), w1 = w0 / 2; APInt mx = us ? APInt::getMaxValue(w1).zext(w0) : APInt::getSignedMaxValue(w1).sext(w0), mn = us ? APInt(w0, 0) : APInt::getSignedMinValue(w1).sext(w0);
                            r[k++] = C.ext(mm("smin", mm("smax", x, C.konst(mn)), C.konst(mx)), 0, w1);
                        }
                        return r;
                    }
                }
                if (has("pshuf.b")) { unsigned lanes = N / 16; bool ok = true; for (unsigned i = 0; i < N; ++i) { Id s = a[1][i]; if (!C.isC(s)) { ok = false; break; } unsigned v = C.cv(s).getZExtValue(); r[i] = v & 0x80 ? C.konst(8, 0) : a[0][i / 16 * 16 + (v & 15)]; } (void)lanes; if (ok) return r; }
                if (has("gather"))
                {
                    // avx2.gather.*(src, ptr, idx, mask, scale)
                    if (a.size() == 5 && C.isC(a[4][0])) { unsigned sc = C.cv(a[4][0]).getZExtValue(); Type* ET = T->getScalarType(); for (unsigned i = 0; i < N; ++i) { if (i >= a[2].size()) { r[i] = C.konst(W, 0); continue; } Id m = C.asB(sign(a[3][i])); Id ix = a[2][i]; if (C.w(ix) < 64) ix = C.sext(ix, 64); Id v = loadTy(C.add(a[1][0], C.mul(ix, C.konst(64, sc))), ET)[0]; r[i] = C.ite(m, v, a[0][i]); } return r; }
                }
                if (has("vtestz.p") || has("vtestc.p")) { Id acc = C.konst(1, 0); for (size_t i = 0; i < a[0].size(); ++i) { unsigned b = C.w(a[0][i]) - 1; Id p = C.asB(C.ext(a[0][i], b, 1)), q = C.asB(C.ext(a[1][i], b, 1)); acc = C.bit("or", acc, C.bit("and", has("vtestz") ? p : C.bnot(p), q)); } return { C.ite(acc, C.konst(32, 0), C.konst(32, 1)) }; }
                if (has("ptestz") || has("ptestc")) { std::vector<Id> p; Id acc = C.konst(1, 0); for (size_t i = 0; i < a[0].size(); ++i) { Id v = has("ptestz") ? C.bit("and", a[0][i], a[1][i]) : C.bit("and", C.bit("xor", a[0][i], C.konst(APInt::getAllOnes(C.w(a[0][i])))), a[1][i]); acc = C.bit("or", acc, C.bnot(C.icmp(CmpInst::ICMP_EQ, v, C.konst(C.w(v), 0)))); } return { C.ite(acc, C.konst(32, 0), C.konst(32, 1)) }; }
                std::vector<Id> flat; for (auto& v : a) flat.insert(flat.end(), v.begin(), v.end());
                for (unsigned i = 0; i < N; ++i) r[i] = C.raw("x86", T->isStructTy() ? 64 : W, flat, nm.str() + "#" + std::to_string(i));
                return r;
            }
            std::vector<Id> flat; for (auto& v : a) flat.insert(flat.end(), v.begin(), v.end());
            for (unsigned i = 0; i < N; ++i) r[i] = C.raw("x86", T->isStructTy() ? 64 : W, flat, nm.str() + "#" + std::to_string(i));
            return r;
        }
        if (F->isDeclaration()) // a fresh heap object is a local object; its size and release do not matter here
        {
            if (nm == "_Znwm" || nm == "_Znam" || nm == "malloc" || nm == "_ZnwmSt11align_val_t" || nm == "_ZnamSt11align_val_t") return { base("%a" + std::to_string(nalloca++)) };
            if (nm == "free" || nm.starts_with("_ZdlPv") || nm.starts_with("_ZdaPv")) return r;
        }
        if (!F->isDeclaration() && !F->isInterposable() || F->hasLinkOnceODRLinkage() && !F->isDeclaration())
        {
            if (++depth > 60) { why = "recursion"; return r; }
            auto saved = ret; auto savedEnv = env;
            unsigned i = 0; for (auto& A : F->args()) { env[&A] = a[i]; if (A.hasByValAttr()) { std::string b = "%a" + std::to_string(nalloca++); copyBytes(b, a[i][0], DL.getTypeAllocSize(A.getParamByValType())); env[&A] = { base(b) }; } ++i; }
            ret.clear(); body(*const_cast<Function*>(F)); r = ret; ret = saved; env = savedEnv; --depth; return r;
        }
        // opaque function: a term, and an effect unless it is known to be pure
        std::vector<Id> flat; for (auto& v : a) flat.insert(flat.end(), v.begin(), v.end());
        std::string name = nm.str();
        static const std::map<std::string, std::string> libm = { { "sqrt", "sqrt" }, { "sqrtf", "sqrt" }, { "fabs", "fabs" }, { "fabsf", "fabs" } };
        auto lm = libm.find(name); if (lm != libm.end()) { r[0] = C.raw(lm->second, W, flat); return r; }
        if (nm.starts_with("sym_"))
        {
            if (name == "sym_add" || name == "sym_sub" || name == "sym_mul" || name == "sym_div") { r[0] = C.fbin(name == "sym_add" ? "fadd" : name == "sym_sub" ? "fsub" : name == "sym_mul" ? "fmul" : "fdiv", flat[0], flat[1]); return r; }
            if (name == "sym_neg") { r[0] = C.fneg(flat[0]); return r; }
            if (name == "sym_lt") { r[0] = C.fcmp(CmpInst::FCMP_OLT, flat[0], flat[1]); return r; }
            if (name == "sym_eq") { r[0] = C.fcmp(CmpInst::FCMP_OEQ, flat[0], flat[1]); return r; }
            r[0] = C.raw("call", W, flat, name); return r;
        }
        if (nm.starts_with("ev_")) { std::vector<Id> e{ C.raw("event", 1, {}, name), guard }; e.insert(e.end(), flat.begin(), flat.end()); eff.push_back(e); for (unsigned i = 0; i < N; ++i) r[i] = C.raw("call", W, flat, name); return r; }
        if (!CB->doesNotAccessMemory()) { std::vector<Id> e{ C.raw("callfx", 1, {}, name), guard }; e.insert(e.end(), flat.begin(), flat.end()); eff.push_back(e); }
        for (unsigned i = 0; i < N; ++i) r[i] = C.raw("call", T->isStructTy() ? 64 : W, flat, name + "#" + std::to_string(i));
        return r;
    }
    void copyBytes(const std::string& b, Id src, uint64_t n) { std::string b2; int64_t o; Id s; if (!addr(src, b2, o, s) || s >= 0) { why = "byval source"; return; } for (uint64_t i = 0; i < n; ++i) { if (b2[0] != '%') rd.insert({ b2, o + (int64_t)i }); auto it = mem.find({ b2, o + (int64_t)i }); mem[{ b, (int64_t)i }] = it != mem.end() ? it->second : Byte{ byteAt(b2, o + i), 0 }; } }
    Id mm(const char* o, Id x, Id y)
    {
        unsigned W = C.w(x); bool mn = std::string(o).substr(1) == "min", s = o[0] == 's';
        if ((C.isIte(x) || C.isIte(y)) && C.leaves(x) * C.leaves(y) <= 64) return C.lift2(x, y, [&](Id a, Id b) { return mm(o, a, b); });
        if (C.isC(x) && C.isC(y)) { bool lt = s ? C.cv(x).slt(C.cv(y)) : C.cv(x).ult(C.cv(y)); return lt == mn ? x : y; }
        if (x == y) return x;
        if (C.isC(x)) std::swap(x, y);
        if (C.isC(y)) { APInt k = C.cv(y), lo = s ? APInt::getSignedMinValue(W) : APInt(W, 0), hi = s ? APInt::getSignedMaxValue(W) : APInt::getAllOnes(W); if (k == lo) return mn ? y : x; if (k == hi) return mn ? x : y; }
        if (C.isC(y))   // the operand's range may make the bound irrelevant
        {
            APInt k = C.cv(y), lo, hi; bool known = false;
            if (C.isOp(x, "cat") && C.isC(C.n[x].a.back()) && C.cv(C.n[x].a.back()).isZero()) { lo = APInt(W, 0); hi = APInt::getLowBitsSet(W, W - C.w(C.n[x].a.back())); known = true; }
            else if (s && C.isOp(x, "sext")) { unsigned v = C.w(C.n[x].a[0]); lo = APInt::getSignedMinValue(v).sext(W); hi = APInt::getSignedMaxValue(v).sext(W); known = true; }
            if (known && mn && (s ? hi.sle(k) : hi.ule(k))) return x;
            if (known && !mn && (s ? lo.sge(k) : lo.uge(k))) return x;
        }
        return C.comm(o, W, x, y);
    }
    Id ssat(Id x, Id y, bool sub)
    {
        // definition of signed saturation through the sign bits
        unsigned W = C.w(x); Id s = sub ? C.sub(x, y) : C.add(x, y); Id sx = C.asB(C.ext(x, W - 1, 1)), sy = C.asB(C.ext(y, W - 1, 1)), ss = C.asB(C.ext(s, W - 1, 1));
        Id diff = C.bit("xor", sx, sy); Id ov = C.bit("and", sub ? diff : C.bnot(diff), C.bit("xor", sx, ss));
        return C.ite(ov, C.ite(sx, C.konst(APInt::getSignedMinValue(W)), C.konst(APInt::getSignedMaxValue(W))), s);
    }
    Id rnd(Id x, Id im)
    {
        if (!C.isC(im)) return C.raw("x86", C.w(x), { x, im }, "round");
        unsigned k = C.cv(im).getZExtValue(); const char* o = (k & 7) == 1 ? "llvm.floor" : (k & 7) == 2 ? "llvm.ceil" : (k & 7) == 3 ? "llvm.trunc" : (k & 7) == 0 ? "llvm.roundeven" : "llvm.rint";
        return fmath(o, { x });
    }
    void inst(const Instruction& I)
    {
        Type* T = I.getType(); unsigned N = T->isVoidTy() ? 0 : elems(T); std::vector<Id> r(N);
        if (auto* B = dyn_cast<BinaryOperator>(&I))
        {
            auto x = val(B->getOperand(0)), y = val(B->getOperand(1)); std::string op = B->getOpcodeName();
            for (unsigned i = 0; i < N; ++i)
                switch (B->getOpcode())
                {
                case Instruction::Add: r[i] = C.add(x[i], y[i]); break;
                case Instruction::Sub: r[i] = C.sub(x[i], y[i]); break;
                case Instruction::Mul: r[i] = C.mul(x[i], y[i]); break;
                case Instruction::Or: if (!T->isVectorTy() && T->isIntegerTy(64) && cast<PossiblyDisjointInst>(B)->isDisjoint() && (C.isC(x[i]) || C.isC(y[i]))) { r[i] = C.add(x[i], y[i]); break; } [[fallthrough]];
                case Instruction::And: case Instruction::Xor: r[i] = C.bit(op.c_str(), x[i], y[i]); break;
                case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: r[i] = C.shift(op, x[i], y[i]); break;
                case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: r[i] = C.fbin(op, x[i], y[i]); break;
                default:
                    if (C.isC(x[i]) && C.isC(y[i]) && !C.cv(y[i]).isZero()) { auto a = C.cv(x[i]), b = C.cv(y[i]); r[i] = C.konst(op == "udiv" ? a.udiv(b) : op == "urem" ? a.urem(b) : op == "sdiv" ? a.sdiv(b) : a.srem(b)); }
                    else if (op == "udiv" && C.isC(y[i]) && C.cv(y[i]).isPowerOf2()) r[i] = C.shift("lshr", x[i], C.konst(C.w(x[i]), C.cv(y[i]).logBase2()));
                    else if (op == "urem" && C.isC(y[i]) && C.cv(y[i]).isPowerOf2()) r[i] = C.bit("and", x[i], C.konst(C.cv(y[i]) - 1));
                    else r[i] = C.raw(op, C.w(x[i]), { x[i], y[i] });
                }
        }
        else if (auto* U = dyn_cast<UnaryOperator>(&I)) { auto x = val(U->getOperand(0)); for (unsigned i = 0; i < N; ++i) r[i] = C.fneg(x[i]); }
        else if (auto* X = dyn_cast<CmpInst>(&I))
        {
            auto x = val(X->getOperand(0)), y = val(X->getOperand(1));
            for (unsigned i = 0; i < N; ++i) r[i] = isa<ICmpInst>(X) ? C.icmp(X->getPredicate(), x[i], y[i]) : C.fcmp(X->getPredicate(), x[i], y[i]);
        }
        else if (auto* S = dyn_cast<SelectInst>(&I))
        {
            auto c = val(S->getCondition()), x = val(S->getTrueValue()), y = val(S->getFalseValue());
            for (unsigned i = 0; i < N; ++i) r[i] = C.ite(C.asB(c[c.size() == 1 ? 0 : i]), x[i], y[i]);
        }
        else if (auto* B = dyn_cast<BitCastInst>(&I)) r = recast(val(B->getOperand(0)), T);
        else if (auto* X = dyn_cast<CastInst>(&I))
        {
            auto x = val(X->getOperand(0));
            if (X->getOpcode() == Instruction::AddrSpaceCast) r = x;
            else for (unsigned i = 0; i < N; ++i) r[i] = conv(X->getOpcode(), x[i], ew(T), false);
        }
        else if (auto* E = dyn_cast<ExtractElementInst>(&I)) { auto v = val(E->getVectorOperand()), ix = val(E->getIndexOperand()); if (C.isC(ix[0])) { uint64_t k = C.cv(ix[0]).getLimitedValue(v.size()); r[0] = k < v.size() ? v[k] : C.undef(ew(T)); } else { Id x = v[0]; for (size_t k = 1; k < v.size(); ++k) x = C.ite(C.icmp(CmpInst::ICMP_EQ, ix[0], C.konst(C.w(ix[0]), k)), v[k], x); r[0] = x; } }
        else if (auto* E = dyn_cast<InsertElementInst>(&I)) { r = val(E->getOperand(0)); auto ix = val(E->getOperand(2)); auto x = val(E->getOperand(1))[0]; if (C.isC(ix[0])) { uint64_t k = C.cv(ix[0]).getLimitedValue(r.size()); if (k < r.size()) r[k] = x; } else for (size_t k = 0; k < r.size(); ++k) r[k] = C.ite(C.icmp(CmpInst::ICMP_EQ, ix[0], C.konst(C.w(ix[0]), k)), x, r[k]); }
        else if (auto* S = dyn_cast<ShuffleVectorInst>(&I)) { auto x = val(S->getOperand(0)), y = val(S->getOperand(1)); auto m = S->getShuffleMask(); for (unsigned i = 0; i < N; ++i) r[i] = m[i] < 0 ? C.undef(ew(T)) : (unsigned)m[i] < x.size() ? x[m[i]] : y[m[i] - x.size()]; }
        else if (auto* E = dyn_cast<ExtractValueInst>(&I)) { auto v = val(E->getAggregateOperand()); Type* A = E->getAggregateOperand()->getType(); unsigned k = 0; for (auto ix : E->indices()) { if (auto* ST = dyn_cast<StructType>(A)) { for (unsigned j = 0; j < ix; ++j) k += elems(ST->getElementType(j)); A = ST->getElementType(ix); } else { A = cast<ArrayType>(A)->getElementType(); k += ix * elems(A); } } for (unsigned i = 0; i < N; ++i) r[i] = v[k + i]; }
        else if (auto* E = dyn_cast<InsertValueInst>(&I)) { r = val(E->getAggregateOperand()); auto x = val(E->getInsertedValueOperand()); Type* A = E->getAggregateOperand()->getType(); unsigned k = 0; for (auto ix : E->indices()) { if (auto* ST = dyn_cast<StructType>(A)) { for (unsigned j = 0; j < ix; ++j) k += elems(ST->getElementType(j)); A = ST->getElementType(ix); } else { A = cast<ArrayType>(A)->getElementType(); k += ix * elems(A); } } for (size_t i = 0; i < x.size(); ++i) r[k + i] = x[i]; }
        else if (auto* G = dyn_cast<GetElementPtrInst>(&I))
        {
            auto b = val(G->getPointerOperand()); std::vector<Id> acc(N); for (unsigned i = 0; i < N; ++i) acc[i] = b[b.size() == 1 ? 0 : i];
            for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it)
            {
                auto ix = val(it.getOperand());
                for (unsigned i = 0; i < N; ++i)
                {
                    Id k = ix[ix.size() == 1 ? 0 : i];
                    if (auto* ST = it.getStructTypeOrNull()) { acc[i] = C.add(acc[i], C.konst(64, DL.getStructLayout(ST)->getElementOffset(C.cv(k).getZExtValue()))); continue; }
                    uint64_t sz = DL.getTypeAllocSize(it.getIndexedType()); if (C.w(k) < 64) k = C.sext(k, 64);
                    acc[i] = C.add(acc[i], C.mul(k, C.konst(64, sz)));
                }
            }
            r = acc;
        }
        else if (auto* L = dyn_cast<LoadInst>(&I)) { r = loadTy(val(L->getPointerOperand())[0], T, L->getAlign().value()); }
        else if (auto* S = dyn_cast<StoreInst>(&I)) { storeTy(val(S->getPointerOperand())[0], S->getValueOperand()->getType(), val(S->getValueOperand()), S->getAlign().value()); }
        else if (isa<AllocaInst>(&I)) { r[0] = base("%a" + std::to_string(nalloca++)); }
        else if (auto* F = dyn_cast<FreezeInst>(&I)) r = val(F->getOperand(0));
        else if (auto* CB = dyn_cast<CallBase>(&I)) r = call(CB);
        else { why = std::string("instruction ") + I.getOpcodeName(); for (auto& x : r) x = C.undef(64); }
        if (N) env[&I] = r;
    }
    void body(Function& F)
    {
        // acyclic control flow: block guards, phis and memory become selects
        ReversePostOrderTraversal<Function*> RPO(&F);
        std::map<const BasicBlock*, int> ord; int k = 0; for (auto* B : RPO) ord[B] = k++;
        struct Edge { const BasicBlock* from; Id cond; Mem mem; };
        std::map<const BasicBlock*, std::vector<Edge>> in; Id outer = guard;
        struct RetP { Id cond; std::vector<Id> v; Mem m; }; std::vector<RetP> rets; Mem saved = mem;
        for (auto* B : RPO)
        {
            if (!why.empty()) return;
            Id g;
            if (B == &F.getEntryBlock()) g = outer;
            else
            {
                auto& es = in[B]; if (es.empty()) continue;
                g = es[0].cond; mem = es[0].mem;
                for (size_t i = 1; i < es.size(); ++i) { mergeMem(es[i].cond, es[i].mem); g = C.bit("or", C.asB(g), C.asB(es[i].cond)); }
                std::map<const PHINode*, std::vector<Id>> ph;
                for (auto& P : B->phis())
                {
                    std::vector<Id> v; bool first = true;
                    for (auto& e : es) { auto x = val(P.getIncomingValueForBlock(e.from)); if (first) { v = x; first = false; } else for (size_t i = 0; i < v.size(); ++i) v[i] = C.ite(e.cond, x[i], v[i]); }
                    ph[&P] = v;
                }
                for (auto& [P, v] : ph) env[P] = v;
            }
            guard = g;
            for (auto& I : *B)
            {
                if (isa<PHINode>(I) || I.isTerminator() && !isa<CallBase>(I)) continue;
                if (++steps > 400000) { why = "too many instructions"; return; }
                inst(I); if (!why.empty()) { why += " at " + locOf(&I); return; }
            }
            auto* T = B->getTerminator();
            auto go = [&](const BasicBlock* S, Id c) { if (C.isC(c) && C.cv(c).isZero()) return true; if (ord[S] <= ord[B]) { why = "loop at " + locOf(T); return false; } for (auto& e : in[S]) if (e.from == B) { e.cond = C.bit("or", e.cond, c); return true; } in[S].push_back({ B, c, mem }); return true; };
            if (auto* R = dyn_cast<ReturnInst>(T)) rets.push_back({ g, R->getReturnValue() ? val(R->getReturnValue()) : std::vector<Id>{}, mem });
            else if (auto* BI = dyn_cast<BranchInst>(T))
            {
                if (BI->isUnconditional()) { if (!go(BI->getSuccessor(0), g)) return; }
                else { Id c = C.asB(val(BI->getCondition())[0]); if (!go(BI->getSuccessor(0), C.bit("and", C.asB(g), c))) return; if (!go(BI->getSuccessor(1), C.bit("and", C.asB(g), C.bnot(c)))) return; }
            }
            else if (auto* SW = dyn_cast<SwitchInst>(T))
            {
                Id v = val(SW->getCondition())[0]; Id rest = C.asB(g);
                for (auto& cs : SW->cases()) { Id c = C.icmp(CmpInst::ICMP_EQ, v, C.konst(cs.getCaseValue()->getValue())); if (!go(cs.getCaseSuccessor(), C.bit("and", C.asB(g), c))) return; rest = C.bit("and", rest, C.bnot(c)); }
                if (!go(SW->getDefaultDest(), rest)) return;
            }
            else if (isa<UnreachableInst>(T)) {}
            else if (auto* IV = dyn_cast<InvokeInst>(T)) { inst(*IV); if (!go(IV->getNormalDest(), g)) return; }
            else { why = "terminator"; return; }
        }
        guard = outer;
        if (rets.empty()) { ret.clear(); return; }
        mem = rets[0].m; ret = rets[0].v;
        for (size_t i = 1; i < rets.size(); ++i) { mergeMem(rets[i].cond, rets[i].m); for (size_t j = 0; j < ret.size(); ++j) ret[j] = C.ite(rets[i].cond, rets[i].v[j], ret[j]); }
    }
    void mergeMem(Id cond, const Mem& m)
    {
        std::set<std::pair<std::string, int64_t>> keys; 
        for (auto& [k, b] : m) { auto it = mem.find(k); if (it == mem.end() || !(it->second == b)) keys.insert(k); }
        for (auto& [k, b] : mem) if (!m.count(k)) keys.insert(k);
        if (keys.empty()) return;
        Mem mine = mem; Exec* self = this;
        for (auto it = keys.begin(); it != keys.end();)
        {
            auto k = *it; unsigned n = 1;
            // widest run that is one element on either side
            auto width = [&](const Mem& mm) -> unsigned { auto q = mm.find(k); if (q == mm.end() || q->second.idx != 0) return 1; unsigned wd = C.w(q->second.node) / 8; for (unsigned i = 1; i < wd; ++i) { auto z = mm.find({ k.first, k.second + i }); if (z == mm.end() || z->second.node != q->second.node || z->second.idx != (int)i) return 1; } return std::max(1u, wd); };
            n = std::max(width(mine), width(m));
            mem = mine; Id a = self->load(k.first, k.second, n * 8); Mem tmp = mem; mem = m; Id b = self->load(k.first, k.second, n * 8);
            mem = mine; Id v = C.ite(cond, b, a); store(k.first, k.second, v); mine = mem;
            while (it != keys.end() && it->first == k.first && it->second < k.second + (int64_t)n) ++it;
        }
        mem = mine;
    }
    std::string run(Function& F)
    {
        unsigned i = 0;
        for (auto& A : F.args())
        {
            std::string b = "a" + std::to_string(i++);
            if (A.getType()->isPointerTy()) env[&A] = { base(b) };
            else { std::vector<std::pair<unsigned, uint64_t>> w; widths(A.getType(), w); std::vector<Id> v; for (auto& x : w) v.push_back(x.first % 8 ? C.ext(C.in({}, "v" + b, x.second / 8, (x.first + 7) / 8 * 8), 0, x.first) : C.in({}, "v" + b, x.second / 8, x.first)); env[&A] = v; }
        }
        body(F);
        if (why.empty() && !C.fail.empty()) why = C.fail;
        return why;
    }
};
} // namespace flow

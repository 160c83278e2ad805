// Interprocedural access-path provenance: which objects (relative to arguments, globals, local allocations) each
// function may write, and what it returns / stores.  Flow-insensitive over SSA, field-sensitive, context-insensitive.
#pragma once
#include "common.h"

static const int64_t STAR = INT64_MIN;
static const unsigned MAXPATH = 5;
static const DataLayout* DL_;

enum BaseKind : uint8_t { B_ARG, B_GLOBAL, B_ALLOC, B_UNKNOWN };
struct Ref
{
    BaseKind k; uint64_t id; std::vector<int64_t> path; int64_t off;
    bool operator<(const Ref& o) const { return std::tie(k, id, path, off) < std::tie(o.k, o.id, o.path, o.off); }
    bool operator==(const Ref& o) const { return k == o.k && id == o.id && path == o.path && off == o.off; }
};
typedef std::set<Ref> Refs;

static inline int64_t addOff(int64_t a, int64_t b) { return a == STAR || b == STAR ? STAR : a + b; }
static inline Ref derefOuter(const Ref& r)
{
    Ref n = r;
    if (n.path.size() >= MAXPATH) { n.path.back() = STAR; n.off = STAR; return n; }
    n.path.push_back(r.off); n.off = 0;
    return n;
}
static std::string refStr(const Ref& r)
{
    std::string s;
    switch (r.k)
    {
    case B_ARG: s = "arg" + std::to_string(r.id); break;
    case B_GLOBAL: s = "@" + dem((const Value*)r.id); break;
    case B_ALLOC: s = "local"; break;
    default: s = "unknown";
    }
    for (auto p : r.path) s = "*(" + s + (p == STAR ? "+?" : p ? "+" + std::to_string(p) : "") + ")";
    return s;
}

struct StoreEff { Ref dst; Ref val; bool operator<(const StoreEff& o) const { return std::tie(dst, val) < std::tie(o.dst, o.val); } };
struct Summary
{
    std::map<Ref, std::string> writes;   // target (off kept as 0) -> location
    std::set<StoreEff> stores;
    Refs ret;
    std::set<std::string> externals;     // unknown externals reached
};

struct AllocState
{
    std::map<int64_t, Refs> content;                          // constant offset or STAR
    std::set<std::tuple<int64_t, int64_t, Ref>> copies;       // dst offset, length(STAR), source
};

struct Prov
{
    Module& M;
    std::map<const Function*, Summary> sum;
    std::map<std::pair<uint64_t, FunctionType*>, std::vector<const Function*>> vslot;   // slot, type -> functions
    std::map<FunctionType*, std::vector<const Function*>> addrTaken;
    std::map<std::string, std::string> nameAlias;              // external name -> defined name
    std::function<bool(const Function*)> isVirtualOK = [](const Function*) { return true; };
    std::set<std::string> unresolvedIndirect;
    bool normalPathsOnly = false;

    static bool onlyInUsedList(const Constant* K)
    {
        if (auto* G = dyn_cast<GlobalVariable>(K)) return G->getName() == "llvm.used" || G->getName() == "llvm.compiler.used";
        if (isa<GlobalValue>(K) || K->use_empty()) return false;
        for (auto* U : K->users()) { auto* C = dyn_cast<Constant>(U); if (!C || !onlyInUsedList(C)) return false; }
        return true;
    }
    explicit Prov(Module& m) : M(m)
    {
        DL_ = &M.getDataLayout();
        std::set<const Function*> inVt;
        for (GlobalVariable& G : M.globals())
            if (G.getName().starts_with("_ZTV") && G.hasInitializer())
                if (auto* S = dyn_cast<ConstantStruct>(G.getInitializer()))
                    for (auto& op : S->operands())
                        if (auto* A = dyn_cast<ConstantArray>(op.get()))
                            for (unsigned i = 2; i < A->getNumOperands(); ++i)
                                if (auto* F = dyn_cast<Function>(A->getOperand(i)->stripPointerCasts()))
                                {
                                    auto& v = vslot[{ i - 2, F->getFunctionType() }];
                                    if (std::find(v.begin(), v.end(), F) == v.end()) v.push_back(F);
                                    inVt.insert(F);
                                }
        for (Function& F : M)
        {
            if (inVt.count(&F)) continue;
            bool taken = false;
            for (auto* U : F.users())
            {
                auto* CB = dyn_cast<CallBase>(U);
                if (isa<Constant>(U) && onlyInUsedList(cast<Constant>(U))) continue;
                if (!CB || CB->getCalledOperand() != &F) taken = true;
            }
            if (taken) addrTaken[F.getFunctionType()].push_back(&F);
        }
    }

    static bool isAllocFn(StringRef n)
    {
        return n == "malloc" || n == "calloc" || n == "realloc" || n == "aligned_alloc" || n == "memalign" || n.starts_with("_Znw") || n.starts_with("_Zna");
    }
    static bool isFreeFn(StringRef n) { return n == "free" || n.starts_with("_ZdlPv") || n.starts_with("_ZdaPv"); }
    static bool isPureExternal(StringRef n)
    {
        static const std::set<std::string> s = { "strlen", "memcmp", "bcmp", "strcmp", "printf", "puts", "putchar", "fprintf", "fputs", "fwrite", "fflush", "abort", "exit", "atexit",
            "sin", "cos", "tan", "exp", "exp2", "log", "log2", "log10", "pow", "sqrt", "fabs", "floor", "ceil", "round", "trunc", "fmod", "rint", "nearbyint", "cbrt", "hypot", "atan", "atan2",
            "sinf", "cosf", "tanf", "expf", "exp2f", "logf", "log2f", "log10f", "powf", "sqrtf", "fabsf", "floorf", "ceilf", "roundf", "truncf", "fmodf", "rintf", "cbrtf", "hypotf", "atanf", "atan2f",
            "expm1", "expm1f", "log1p", "log1pf", "sinh", "cosh", "tanh", "sinhf", "coshf", "tanhf", "asin", "acos", "asinf", "acosf", "lgamma", "tgamma", "ldexp", "ldexpf", "lroundf", "lround",
            "__clang_call_terminate", "_ZSt9terminatev", "_Unwind_Resume", "__stack_chk_fail", "pthread_mutex_lock", "pthread_mutex_unlock" };
        return s.count(n.str()) || n.starts_with("__cxa_") || n.starts_with("_ZSt20__throw") || n.starts_with("_ZSt17__throw") || n.contains("__throw_");
    }

    const Function* resolveDirect(const Function* G)
    {
        if (!G || !G->isDeclaration()) return G;
        auto it = nameAlias.find(G->getName().str());
        if (it != nameAlias.end()) if (auto* F = M.getFunction(it->second)) if (!F->isDeclaration()) return F;
        return G;
    }
    // candidates of a call; empty + external name when unknown
    std::vector<const Function*> candidates(const CallBase* CB)
    {
        if (auto* G = calledFn(CB)) return { resolveDirect(G) };
        const Value* C = CB->getCalledOperand()->stripPointerCasts();
        if (auto* L = dyn_cast<LoadInst>(C))
        {
            APInt O(64, 0);
            const Value* P = L->getPointerOperand()->stripAndAccumulateConstantOffsets(*DL_, O, true);
            if (auto* L2 = dyn_cast<LoadInst>(P))
            {
                auto it = vslot.find({ O.getZExtValue() / 8, CB->getFunctionType() });
                if (it != vslot.end() && O.getSExtValue() >= 0) return it->second;
            }
        }
        auto it = addrTaken.find(CB->getFunctionType());
        if (it != addrTaken.end()) return it->second;
        return {};
    }

    // ---------------------------------------------------------------- per function
    struct FnState
    {
        std::unordered_map<const Value*, Refs> val;
        std::map<uint64_t, AllocState> alloc;
        bool changed = false;
    };

    static void addRef(Refs& dst, const Ref& r, bool& ch)
    {
        if (r.off != STAR)
        {
            Ref s = r; s.off = STAR;
            if (dst.count(s)) return;
        }
        if (!dst.insert(r).second) return;
        ch = true;
        // widen: too many offsets of one object collapse
        unsigned n = 0; bool neg = false;
        for (auto& x : dst) if (x.k == r.k && x.id == r.id && x.path == r.path) ++n;
        if (n > 12)
        {
            for (auto it = dst.begin(); it != dst.end();)
                if (it->k == r.k && it->id == r.id && it->path == r.path) it = dst.erase(it); else ++it;
            Ref s = r; s.off = STAR; dst.insert(s);
        }
        if (dst.size() > 200) { dst.clear(); dst.insert(Ref{ B_UNKNOWN, 0, {}, STAR }); }
    }
    Refs evalConst(const Value* V)
    {
        Refs r;
        APInt O(64, 0);
        const Value* B = V->stripAndAccumulateConstantOffsets(*DL_, O, true);
        if (auto* G = dyn_cast<GlobalValue>(B)) r.insert(Ref{ B_GLOBAL, (uint64_t)G, {}, O.getSExtValue() });
        else if (auto* GE = dyn_cast<GEPOperator>(B)) { for (auto x : evalConst(GE->getPointerOperand())) { x.off = STAR; r.insert(x); } }
        else if (auto* CE = dyn_cast<ConstantExpr>(B)) { if (CE->getNumOperands()) r = evalConst(CE->getOperand(0)); }
        else if (auto* CA = dyn_cast<ConstantAggregate>(B)) { for (auto& o : CA->operands()) for (auto& x : evalConst(o.get())) r.insert(x); }
        return r;
    }
    Refs get(FnState& S, const Value* V)
    {
        if (auto* A = dyn_cast<Argument>(V)) return { Ref{ B_ARG, A->getArgNo(), {}, 0 } };
        if (isa<Constant>(V)) return evalConst(V);
        auto it = S.val.find(V);
        return it == S.val.end() ? Refs() : it->second;
    }
    static void store(FnState& S, const Ref& d, const Refs& v)
    {
        if (d.k == B_ALLOC && d.path.empty())
        {
            auto& c = S.alloc[d.id].content[d.off];
            for (auto& x : v) addRef(c, x, S.changed);
        }
    }
    void loadFrom(FnState& S, const Ref& r, Refs& out)
    {
        bool ch = false;
        if (r.k == B_ALLOC && r.path.empty())
        {
            auto it = S.alloc.find(r.id);
            if (it == S.alloc.end()) return;
            for (auto& kv : it->second.content)
                if (r.off == STAR || kv.first == STAR || kv.first == r.off) for (auto& x : kv.second) addRef(out, x, ch);
            for (auto& [d, len, src] : it->second.copies)
            {
                Ref s = src;
                if (r.off != STAR && d != STAR && len != STAR && (r.off < d || r.off >= d + len)) continue;
                s.off = (r.off == STAR || d == STAR) ? STAR : addOff(src.off, r.off - d);
                if (s.k == B_ALLOC && s.path.empty()) { if (s.id != r.id) loadFrom(S, s, out); }
                else addRef(out, derefOuter(s), ch);
            }
            return;
        }
        if (r.k == B_UNKNOWN) { addRef(out, r, ch); return; }
        if (r.k == B_GLOBAL && r.path.empty())
            if (auto* G = dyn_cast<GlobalVariable>((const Value*)r.id))
                if (G->isConstant() && G->hasInitializer() && !isa<ConstantDataSequential>(G->getInitializer()))
                {
                    std::set<const GlobalValue*> refs; std::set<const Constant*> seen;
                    constRefs(G->getInitializer(), refs, seen);
                    for (auto* g : refs) addRef(out, Ref{ B_GLOBAL, (uint64_t)g, {}, 0 }, ch);
                    return;
                }
        addRef(out, derefOuter(r), ch);
    }
    // translate a callee reference at a call site
    Refs mapRef(FnState& S, const CallBase* CB, const Ref& r)
    {
        Refs cur; bool ch = false;
        if (r.k == B_ARG)
        {
            if (r.id < CB->arg_size()) cur = get(S, CB->getArgOperand(r.id));
        }
        else if (r.k == B_ALLOC) cur.insert(Ref{ B_ALLOC, (uint64_t)CB, {}, 0 });
        else { Ref x = r; x.path.clear(); x.off = 0; cur.insert(x); }
        for (auto p : r.path)
        {
            Refs nx;
            for (auto x : cur) { x.off = addOff(x.off, p); loadFrom(S, x, nx); }
            cur = nx;
        }
        Refs out;
        for (auto x : cur) { x.off = addOff(x.off, r.off); addRef(out, x, ch); }
        return out;
    }
    static void recordWrite(Summary& Z, Ref r, const std::string& where, bool& ch)
    {
        if (r.k == B_ALLOC) return;
        r.off = 0;
        if (r.k == B_GLOBAL)
        {
            auto* G = dyn_cast<GlobalVariable>((const Value*)r.id);
            if (!G) return;
            if (r.path.empty() && G->isConstant()) return;
            if (G->isThreadLocal()) return;
        }
        if (Z.writes.emplace(r, where).second) ch = true;
    }
    bool once(const Function& F)
    {
        Summary& Z = sum[&F];
        bool sch = false;
        FnState S;
        std::set<const BasicBlock*> canRet; const std::set<const BasicBlock*>* returning = nullptr;
        if (normalPathsOnly)
        {
            std::vector<const BasicBlock*> W;
            for (auto& B : F) if (isa<ReturnInst>(B.getTerminator())) W.push_back(&B);
            while (!W.empty())
            {
                auto* B = W.back(); W.pop_back();
                if (!canRet.insert(B).second) continue;
                for (auto* Q : predecessors(B)) W.push_back(Q);
            }
            returning = &canRet;
        }
        // blocks executed under a function-local-static guard
        std::set<const BasicBlock*> guarded;
        {
            DominatorTree DT(const_cast<Function&>(F));
            for (const Instruction& I : instructions(F))
                if (auto* CB = dyn_cast<CallBase>(&I))
                    if (auto* G = calledFn(CB)) if (G->getName() == "__cxa_guard_acquire")
                        for (auto* U : CB->users())
                            if (auto* IC = dyn_cast<ICmpInst>(U))
                                for (auto* U2 : IC->users())
                                    if (auto* BI = dyn_cast<BranchInst>(U2))
                                    {
                                        const BasicBlock* T = BI->getSuccessor(IC->getPredicate() == ICmpInst::ICMP_EQ ? 1 : 0);
                                        for (const BasicBlock& B : F) if (DT.dominates(T, &B)) guarded.insert(&B);
                                    }
        }
        for (int iter = 0; iter < 30; ++iter)
        {
            S.changed = false;
            for (const BasicBlock& B : F)
            {
                if (returning && !returning->count(&B)) continue;   // only continues into a throw or termination
                for (const Instruction& I : B)
                {
                    auto set = [&](const Refs& r) { Refs& d = S.val[&I]; for (auto& x : r) addRef(d, x, S.changed); };
                    auto wr = [&](const Ref& r, const std::string& where)
                    {
                        if (r.k == B_GLOBAL && guarded.count(&B)) return;
                        recordWrite(Z, r, where, sch);
                    };
                    auto eff = [&](const Ref& d, const Refs& v)
                    {
                        store(S, d, v);
                        if (d.k != B_UNKNOWN)
                            for (auto& x : v)
                            {
                                if (d.k == B_ALLOC && !isa<CallBase>((const Value*)d.id)) continue;
                                if (Z.stores.size() < 400 && Z.stores.insert(StoreEff{ d, x }).second) sch = true;
                            }
                    };
                    if (isa<AllocaInst>(&I)) set({ Ref{ B_ALLOC, (uint64_t)&I, {}, 0 } });
                    else if (auto* G = dyn_cast<GetElementPtrInst>(&I))
                    {
                        APInt O(64, 0);
                        int64_t off = !G->getType()->isVectorTy() && G->accumulateConstantOffset(*DL_, O) ? O.getSExtValue() : STAR;
                        Refs r; bool ch = false;
                        for (auto x : get(S, G->getPointerOperand())) { x.off = addOff(x.off, off); addRef(r, x, ch); }
                        set(r);
                    }
                    else if (auto* L = dyn_cast<LoadInst>(&I))
                    {
                        Type* T = I.getType();
                        bool ptrish = T->isPtrOrPtrVectorTy() || T->isAggregateType() || (T->isIntegerTy(64)) || T->isVectorTy();
                        if (T->isFPOrFPVectorTy()) ptrish = false;
                        if (ptrish)
                        {
                            Refs r;
                            for (auto& x : get(S, L->getPointerOperand()))
                            {
                                // integers loaded from outside are data, not addresses
                                if (!T->isPtrOrPtrVectorTy() && !T->isAggregateType() && !(x.k == B_ALLOC && x.path.empty())) continue;
                                loadFrom(S, x, r);
                            }
                            set(r);
                        }
                    }
                    else if (auto* St = dyn_cast<StoreInst>(&I))
                    {
                        Refs v = St->getValueOperand()->getType()->isFPOrFPVectorTy() ? Refs() : get(S, St->getValueOperand());
                        for (auto& d : get(S, St->getPointerOperand())) { wr(d, locOf(&I)); eff(d, v); }
                        if (get(S, St->getPointerOperand()).empty() && iter > 3 && !isa<ConstantPointerNull>(St->getPointerOperand()) && !isa<UndefValue>(St->getPointerOperand()))
                            wr(Ref{ B_UNKNOWN, 0, {}, 0 }, locOf(&I));
                    }
                    else if (isa<PHINode>(&I) || isa<SelectInst>(&I) || isa<CastInst>(&I) || isa<FreezeInst>(&I) || isa<ExtractValueInst>(&I) || isa<InsertValueInst>(&I) ||
                             isa<ExtractElementInst>(&I) || isa<InsertElementInst>(&I) || isa<ShuffleVectorInst>(&I))
                    {
                        if (I.getType()->isFPOrFPVectorTy() || I.getType()->isIntOrIntVectorTy(1)) continue;
                        Refs r; bool ch = false;
                        unsigned k = 0;
                        for (auto& u : I.operands())
                        {
                            if (isa<SelectInst>(&I) && k++ == 0) continue;
                            if (u->getType()->isFPOrFPVectorTy()) continue;
                            for (auto& x : get(S, u.get())) addRef(r, x, ch);
                        }
                        set(r);
                    }
                    else if (auto* BO = dyn_cast<BinaryOperator>(&I))
                    {
                        if (!I.getType()->isIntOrIntVectorTy()) continue;
                        unsigned w = I.getType()->getScalarSizeInBits();
                        if (w < 64) continue;
                        Refs r; bool ch = false;
                        if (BO->getOpcode() == Instruction::Sub && !get(S, BO->getOperand(0)).empty() && !get(S, BO->getOperand(1)).empty()) continue; // pointer difference
                        for (auto& u : I.operands()) for (auto x : get(S, u.get())) { x.off = STAR; addRef(r, x, ch); }
                        set(r);
                    }
                    else if (auto* RM = dyn_cast<AtomicRMWInst>(&I)) { for (auto& d : get(S, RM->getPointerOperand())) if (d.k != B_GLOBAL) wr(d, "atomic " + locOf(&I)); }
                    else if (auto* CX = dyn_cast<AtomicCmpXchgInst>(&I)) { for (auto& d : get(S, CX->getPointerOperand())) if (d.k != B_GLOBAL) wr(d, "atomic " + locOf(&I)); }
                    else if (auto* R = dyn_cast<ReturnInst>(&I))
                    {
                        if (R->getReturnValue()) for (auto& x : get(S, R->getReturnValue())) if (!(x.k == B_ALLOC && isa<AllocaInst>((const Value*)x.id))) addRef(Z.ret, x, sch);
                    }
                    else if (auto* CB = dyn_cast<CallBase>(&I))
                    {
                        if (auto* MT = dyn_cast<MemTransferInst>(CB))
                        {
                            Refs src = get(S, MT->getSource());
                            int64_t len = isa<ConstantInt>(MT->getLength()) ? cast<ConstantInt>(MT->getLength())->getSExtValue() : STAR;
                            for (auto& d : get(S, MT->getDest()))
                            {
                                wr(d, locOf(&I));
                                if (d.k == B_ALLOC && d.path.empty())
                                    for (auto& s : src) if (S.alloc[d.id].copies.size() < 64 && S.alloc[d.id].copies.insert({ d.off, len, s }).second) S.changed = true;
                                if (d.k == B_ARG && len != STAR && len <= 256)
                                    for (auto& s : src)
                                        for (int64_t o = 0; o < len; o += 8)
                                        {
                                            Refs v; Ref ss = s; ss.off = addOff(ss.off, o); loadFrom(S, ss, v);
                                            Ref dd = d; dd.off = addOff(d.off, o);
                                            if (!v.empty()) eff(dd, v);
                                        }
                            }
                            continue;
                        }
                        if (auto* MS = dyn_cast<MemSetInst>(CB)) { for (auto& d : get(S, MS->getDest())) wr(d, locOf(&I)); continue; }
                        if (auto* II = dyn_cast<IntrinsicInst>(CB))
                        {
                            if (II->getIntrinsicID() == Intrinsic::threadlocal_address) { set(get(S, CB->getArgOperand(0))); continue; }
                            if (II->getIntrinsicID() == Intrinsic::launder_invariant_group || II->getIntrinsicID() == Intrinsic::strip_invariant_group || II->getIntrinsicID() == Intrinsic::ptrmask) { set(get(S, CB->getArgOperand(0))); continue; }
                            if (II->getIntrinsicID() == Intrinsic::prefetch) continue;
                            if (II->mayWriteToMemory() && !II->isLifetimeStartOrEnd() && !II->isAssumeLikeIntrinsic())
                                for (auto& a : CB->args()) if (a->getType()->isPtrOrPtrVectorTy()) for (auto& d : get(S, a.get())) wr(d, locOf(&I));
                            continue;
                        }
                        auto cands = candidates(CB);
                        if (cands.empty())
                        {
                            std::string nm = "indirect call at " + locOf(&I);
                            if (Z.externals.insert(nm).second) sch = true;
                            for (auto& a : CB->args()) if (a->getType()->isPointerTy()) for (auto& d : get(S, a.get())) wr(d, nm);
                            continue;
                        }
                        for (auto* G : cands)
                        {
                            if (G->isDeclaration())
                            {
                                StringRef n = G->getName();
                                if (isAllocFn(n)) { set({ Ref{ B_ALLOC, (uint64_t)&I, {}, 0 } }); continue; }
                                if (n == "posix_memalign") { for (auto& d : get(S, CB->getArgOperand(0))) { wr(d, locOf(&I)); eff(d, { Ref{ B_ALLOC, (uint64_t)&I, {}, 0 } }); } continue; }
                                if (isFreeFn(n) || isPureExternal(n) || G->onlyReadsMemory()) continue;
                                if (n == "__pure_virtual" || n == "__cxa_pure_virtual") continue;
                                if (Z.externals.insert(n.str()).second) sch = true;
                                for (auto& a : CB->args()) if (a->getType()->isPointerTy()) for (auto& d : get(S, a.get())) wr(d, "call of " + dem(G) + " at " + locOf(&I));
                                set({ Ref{ B_UNKNOWN, 0, {}, STAR } });
                                continue;
                            }
                            Summary Y = sum[G]; // copy: recursion
                            for (auto& w : Y.writes)
                            {
                                if (w.first.k == B_ARG || w.first.k == B_ALLOC) { for (auto& d : mapRef(S, CB, w.first)) wr(d, w.second); }
                                else wr(w.first, w.second);
                            }
                            for (auto& se : Y.stores)
                            {
                                Refs v = mapRef(S, CB, se.val);
                                if (v.empty()) continue;
                                for (auto& d : mapRef(S, CB, se.dst)) eff(d, v);
                            }
                            Refs rr; bool ch = false;
                            for (auto& x : Y.ret) for (auto& m : mapRef(S, CB, x)) addRef(rr, m, ch);
                            set(rr);
                            for (auto& e : Y.externals) if (Z.externals.insert(e).second) sch = true;
                        }
                    }
                }
            }
            if (!S.changed) break;
        }
        return sch;
    }
    void solve(const std::set<const Function*>& fns)
    {
        // callees first (rough order), then to a fixpoint with dependency worklist
        std::map<const Function*, std::set<const Function*>> callers;
        std::vector<const Function*> order;
        std::set<const Function*> done;
        std::function<void(const Function*)> dfs = [&](const Function* F)
        {
            if (!done.insert(F).second) return;
            for (const Instruction& I : instructions(*F))
                if (auto* CB = dyn_cast<CallBase>(&I))
                    if (!isa<IntrinsicInst>(CB))
                        for (auto* G : candidates(CB))
                            if (!G->isDeclaration()) { callers[G].insert(F); dfs(G); }
            order.push_back(F);
        };
        for (auto* F : fns) dfs(F);
        std::set<const Function*> dirty(order.begin(), order.end());
        for (int round = 0; round < 20 && !dirty.empty(); ++round)
            for (auto* F : order)
                if (dirty.erase(F))
                    if (once(*F)) for (auto* c : callers[F]) dirty.insert(c);
        if (!dirty.empty()) die("effect summaries did not converge");
        analysed = order;
    }
    std::vector<const Function*> analysed;
};

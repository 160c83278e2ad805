// R04: writes to process-wide mutable data, with the context (one-time initialisation, start-up, lock) of each.
//   globeff bc...
#include "prov.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"

static bool isLockFn(StringRef n)
{
    std::string d = dem(n);
    return d.find("std::lock_guard<") != std::string::npos || d.find("std::unique_lock<") != std::string::npos || d.find("std::scoped_lock<") != std::string::npos ||
           d.find("std::mutex::") != std::string::npos || d.find("std::recursive_mutex::") != std::string::npos || d.find("std::shared_mutex::") != std::string::npos || n.contains("gthread");
}
static const Value* baseOf(const Value* V)
{
    for (int i = 0; i < 20; ++i)
    {
        if (auto* G = dyn_cast<GEPOperator>(V)) V = G->getPointerOperand();
        else if (auto* C = dyn_cast<Operator>(V); C && (C->getOpcode() == Instruction::BitCast || C->getOpcode() == Instruction::AddrSpaceCast)) V = C->getOperand(0);
        else break;
    }
    return V;
}

struct An
{
    Module& M; Prov P;
    explicit An(Module& m) : M(m), P(m) {}

    // ------------------------------------------------------------ locks held before each instruction (must)
    typedef std::set<const Value*> Locks;
    std::map<const Function*, std::map<const Instruction*, Locks>> locks;
    const std::map<const Instruction*, Locks>& locksOf(const Function& F)
    {
        auto it = locks.find(&F);
        if (it != locks.end()) return it->second;
        auto& R = locks[&F];
        bool any = false;
        for (auto& I : instructions(F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* G = calledFn(CB)) any |= G->getName().starts_with("pthread_mutex_") || G->getName().starts_with("pthread_rwlock_");
        if (!any) return R;
        std::map<const BasicBlock*, std::pair<bool, Locks>> in;
        in[&F.getEntryBlock()] = { true, {} };
        bool ch = true;
        while (ch)
        {
            ch = false;
            for (auto& B : F)
            {
                auto ib = in.find(&B); if (ib == in.end()) continue;
                Locks L = ib->second.second;
                auto push = [&](const BasicBlock* S, const Locks& l)
                {
                    auto [it2, fresh] = in.emplace(S, std::make_pair(true, l));
                    if (fresh) { ch = true; return; }
                    Locks m; std::set_intersection(l.begin(), l.end(), it2->second.second.begin(), it2->second.second.end(), std::inserter(m, m.end()));
                    if (m != it2->second.second) { it2->second.second = m; ch = true; }
                };
                for (auto& I : B)
                {
                    if (!L.empty()) R[&I] = L; else R.erase(&I);
                    if (auto* CB = dyn_cast<CallBase>(&I))
                        if (auto* G = calledFn(CB))
                        {
                            StringRef n = G->getName();
                            if (n == "pthread_mutex_lock" || n == "pthread_rwlock_wrlock") L.insert(baseOf(CB->getArgOperand(0)));
                            if (n == "pthread_mutex_unlock" || n == "pthread_rwlock_unlock")
                            {
                                auto* b = baseOf(CB->getArgOperand(0));
                                if (L.count(b)) L.erase(b); else L.clear();
                            }
                        }
                }
                for (auto* S : successors(&B)) push(S, L);
            }
        }
        return R;
    }
    std::map<const Function*, std::set<const BasicBlock*>> guards;
    const std::set<const BasicBlock*>& guardedOf(const Function& F)
    {
        auto it = guards.find(&F);
        if (it != guards.end()) return it->second;
        auto& R = guards[&F];
        bool any = false;
        for (const Instruction& I : instructions(F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* G = calledFn(CB)) any |= G->getName() == "__cxa_guard_acquire";
        if (!any) return R;
        DominatorTree DT(const_cast<Function&>(F));
        for (const Instruction& I : instructions(F))
            if (auto* CB = dyn_cast<CallBase>(&I))
                if (auto* G = calledFn(CB)) if (G->getName() == "__cxa_guard_acquire")
                    for (auto* U : CB->users())
                        if (auto* IC = dyn_cast<ICmpInst>(U))
                            for (auto* U2 : IC->users())
                                if (auto* BI = dyn_cast<BranchInst>(U2))
                                {
                                    const BasicBlock* T = BI->getSuccessor(IC->getPredicate() == ICmpInst::ICMP_EQ ? 1 : 0);
                                    for (const BasicBlock& B : F) if (DT.dominates(T, &B)) R.insert(&B);
                                }
        return R;
    }
    // ------------------------------------------------------------ what happens to memory reachable from a value
    struct Eff { std::vector<std::pair<const Instruction*, std::string>> writes; bool returned = false; std::set<std::string> fields; };
    std::map<std::pair<const Function*, unsigned>, Eff> memo, prev;
    std::set<std::pair<const Function*, unsigned>> active;

    static std::string fieldKey(const Value* P)
    {
        if (auto* G = dyn_cast<GEPOperator>(P)) if (auto* S = dyn_cast<StructType>(G->getSourceElementType())) if (S->hasName())
        {
            std::string k = S->getName().str();
            for (auto it = G->idx_begin() + 1; it != G->idx_end(); ++it) k += "." + (isa<ConstantInt>(*it) ? std::to_string(cast<ConstantInt>(*it)->getZExtValue()) : "*");
            return k;
        }
        return "";
    }
    Eff paramEff(const Function* F, unsigned k)
    {
        auto key = std::make_pair(F, k);
        auto it = memo.find(key);
        if (it != memo.end()) return it->second;
        if (!active.insert(key).second) return prev[key];      // recursion: the previous round's result
        Eff E;
        if (k < F->arg_size()) E = follow(*F, { F->getArg(k) }, F->getArg(k), false);
        active.erase(key);
        memo[key] = E;
        return E;
    }
    // seeds: values of F that point to the object; owner: the base whose own lock protects it
    Eff follow(const Function& F, std::vector<const Value*> seeds, const Value* owner, bool isGlobal)
    {
        Eff E;
        std::map<const Value*, int> lvl;       // 0: points into the object, 1: into memory it refers to
        std::vector<const Value*> W;
        auto add = [&](const Value* V, int l) { auto it = lvl.find(V); if (it == lvl.end() || it->second > l) { lvl[V] = l; W.push_back(V); } };
        for (auto* s : seeds) add(s, 0);
        auto& LK = locksOf(F);
        auto write = [&](const Instruction* I, const std::string& how)
        {
            if (guardedOf(F).count(I->getParent())) return;
            auto it = LK.find(I);
            if (it != LK.end())
                for (auto* b : it->second)
                    if (b == owner || isa<GlobalVariable>(b) || lvl.count(b)) return;
            E.writes.push_back({ I, how });
        };
        while (!W.empty())
        {
            auto* V = W.back(); W.pop_back();
            int l = lvl[V];
            for (auto* U : V->users())
            {
                if (auto* C = dyn_cast<ConstantExpr>(U)) { add(C, l); continue; }
                auto* I = dyn_cast<Instruction>(U);
                if (!I || I->getFunction() != &F) continue;
                if (isa<GetElementPtrInst>(I) || isa<CastInst>(I) || isa<PHINode>(I) || isa<SelectInst>(I) || isa<FreezeInst>(I) || isa<ExtractValueInst>(I) || isa<InsertValueInst>(I)) { add(I, l); continue; }
                if (auto* L = dyn_cast<LoadInst>(I)) { if (L->getType()->isPointerTy()) add(L, 1); continue; }
                if (auto* S = dyn_cast<StoreInst>(I))
                {
                    if (S->getPointerOperand() == V) { if (!S->isAtomic()) write(I, "store"); continue; }
                    // the address itself is stored
                    if (l > 0) continue;
                    const Value* b = baseOf(S->getPointerOperand());
                    if (isa<AllocaInst>(b))
                    {
                        std::vector<const Value*> w2{ b }; std::set<const Value*> s2;
                        while (!w2.empty()) { auto* x = w2.back(); w2.pop_back(); if (!s2.insert(x).second) continue; for (auto* u : x->users()) { if (isa<GetElementPtrInst>(u)) w2.push_back(u); if (auto* L = dyn_cast<LoadInst>(u)) if (L->getType()->isPointerTy()) add(L, 0); } }
                    }
                    else { auto k = fieldKey(S->getPointerOperand()); if (!k.empty()) E.fields.insert(k); }
                    continue;
                }
                if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) continue;
                if (isa<ReturnInst>(I)) { E.returned = true; continue; }
                if (auto* CB = dyn_cast<CallBase>(I))
                {
                    if (auto* MT = dyn_cast<MemTransferInst>(CB)) { if (MT->getRawDest() == V) write(I, "memcpy"); continue; }
                    if (isa<MemSetInst>(CB)) { write(I, "memset"); continue; }
                    if (auto* II = dyn_cast<IntrinsicInst>(CB))
                    {
                        if (II->getType()->isPointerTy()) add(II, l);
                        else if (II->mayWriteToMemory() && !II->isLifetimeStartOrEnd() && !II->isAssumeLikeIntrinsic() && II->getIntrinsicID() != Intrinsic::prefetch) write(I, dem(II->getCalledFunction()));
                        continue;
                    }
                    for (unsigned k = 0; k < CB->arg_size(); ++k)
                    {
                        if (CB->getArgOperand(k) != V) continue;
                        for (auto* G : P.candidates(CB))
                        {
                            if (G->isDeclaration())
                            {
                                StringRef n = G->getName();
                                if (Prov::isFreeFn(n)) { write(I, "free"); continue; }
                                if (Prov::isPureExternal(n) || G->onlyReadsMemory() || CB->paramHasAttr(k, Attribute::ReadOnly) || CB->paramHasAttr(k, Attribute::ReadNone) || n.starts_with("pthread_")) continue;
                                write(I, "call of " + dem(G)); continue;
                            }
                            Eff Y = paramEff(G, k);
                            if (!Y.writes.empty()) write(I, "call of " + dem(G) + ": " + Y.writes[0].second + " at " + locOf(Y.writes[0].first));
                            if (Y.returned) add(CB, l);
                            if (l == 0) for (auto& f : Y.fields) E.fields.insert(f);
                        }
                    }
                }
            }
        }
        return E;
    }
};

int main(int argc, char** argv)
{
    LLVMContext C;
    auto M = loadAndLink(C, std::vector<std::string>(argv + 1, argv + argc));
    for (Function& F : *M)
    {
        if (F.isDeclaration()) continue;
        F.removeFnAttr(Attribute::AlwaysInline);
        if (!isLockFn(F.getName())) continue;
        F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone); F.addFnAttr(Attribute::AlwaysInline);
    }
    runPipeline(*M, "always-inline,function(sroa,early-cse,simplifycfg)");
    An A(*M);
    // start-up-only functions
    std::set<const Function*> ctorRoots;
    for (auto* N : { "llvm.global_ctors", "llvm.global_dtors" })
        if (auto* GC = M->getNamedGlobal(N); GC && GC->hasInitializer())
        {
            std::set<const GlobalValue*> refs; std::set<const Constant*> seen; constRefs(GC->getInitializer(), refs, seen);
            for (auto* r : refs) if (auto* f = dyn_cast<Function>(r)) ctorRoots.insert(f);
        }
    // owner functions: mention the global or receive its address as a call result or from a field holding it
    unsigned nglob = 0, nacc = 0;
    struct Ev { const Function* F; const Instruction* I; const GlobalVariable* G; std::string how; };
    std::vector<Ev> evs;
    std::map<std::string, std::vector<const LoadInst*>> fieldLoads;
    for (Function& F : *M) for (auto& I : instructions(F)) if (auto* L = dyn_cast<LoadInst>(&I)) if (L->getType()->isPointerTy()) { auto k = An::fieldKey(L->getPointerOperand()); if (!k.empty()) fieldLoads[k].push_back(L); }
    std::map<const Function*, std::vector<const CallBase*>> callsTo;
    for (Function& F : *M) for (auto& I : instructions(F)) if (auto* CB = dyn_cast<CallBase>(&I)) for (auto* G : A.P.candidates(CB)) callsTo[G].push_back(CB);
    for (int round = 0; round < 3; ++round)
    {
    A.prev = A.memo; A.memo.clear(); evs.clear(); nglob = nacc = 0;
    for (GlobalVariable& G : M->globals())
    {
        if (G.isConstant() || G.isThreadLocal() || G.isDeclaration() || G.getName().starts_with("llvm.") || G.getName().starts_with("_ZGV") || G.getName().starts_with(".")) continue;
        ++nglob;
        std::map<const Function*, std::set<const Value*>> seeds;
        std::set<const Constant*> cs{ &G }; std::vector<const Constant*> cw{ &G };
        while (!cw.empty()) { auto* c = cw.back(); cw.pop_back(); for (auto* u : c->users()) { if (auto* k = dyn_cast<ConstantExpr>(u)) { if (cs.insert(k).second) cw.push_back(k); } } }
        for (auto* c : cs) for (auto* u : c->users()) if (auto* I = dyn_cast<Instruction>(u)) seeds[I->getFunction()].insert(c);
        std::vector<const Function*> W; for (auto& s : seeds) W.push_back(s.first);
        std::map<const Function*, size_t> doneN; std::set<std::string> fields;
        std::vector<Ev> mine;
        while (!W.empty())
        {
            auto* F = W.back(); W.pop_back();
            auto& S = seeds[F];
            if (doneN[F] == S.size()) continue;
            doneN[F] = S.size();
            auto E = A.follow(*F, std::vector<const Value*>(S.begin(), S.end()), &G, true);
            ++nacc;
            mine.erase(std::remove_if(mine.begin(), mine.end(), [&](const Ev& e) { return e.F == F; }), mine.end());
            for (auto& w : E.writes) mine.push_back({ F, w.first, &G, w.second });
            if (E.returned) for (auto* CB : callsTo[F]) { auto* H = CB->getFunction(); if (seeds[H].insert(CB).second) W.push_back(H); }
            for (auto& f : E.fields) if (fields.insert(f).second) for (auto* L : fieldLoads[f]) { auto* H = L->getFunction(); if (seeds[H].insert(L).second) W.push_back(H); }
        }
        evs.insert(evs.end(), mine.begin(), mine.end());
        if (round == 2) emit(json::Object{ { "kind", "global" }, { "name", dem(&G) }, { "sym", G.getName() }, { "owners", (int64_t)seeds.size() }, { "unprotected", (int64_t)mine.size() } });
    }
    }
    // context: every caller is start-up code or holds a lock
    std::map<const Function*, int> st;
    std::function<bool(const Function*)> exemptFn = [&](const Function* F) -> bool
    {
        auto it = st.find(F);
        if (it != st.end()) return it->second == 1;
        st[F] = 1;   // optimistic for recursion
        if (ctorRoots.count(F)) return true;
        bool ok = !callsTo[F].empty();
        for (auto* U : F->users()) { auto* CB = dyn_cast<CallBase>(U); if (!CB || CB->getCalledOperand() != F) if (!(isa<Constant>(U) && Prov::onlyInUsedList(cast<Constant>(U)))) ok = false; }
        if (F->hasExternalLinkage()) ok = false;
        for (auto* CB : callsTo[F])
        {
            if (!ok) break;
            auto* H = CB->getFunction();
            if (A.guardedOf(*H).count(CB->getParent())) continue;
            auto& LK = A.locksOf(*H); auto l = LK.find(CB);
            bool locked = false; if (l != LK.end()) for (auto* b : l->second) locked |= isa<GlobalVariable>(b);
            if (locked || exemptFn(H)) continue;
            ok = false;
        }
        st[F] = ok;
        return ok;
    };
    for (auto& e : evs)
    {
        if (exemptFn(e.F)) continue;
        emit(json::Object{ { "kind", "write" }, { "global", dem(e.G) }, { "sym", e.G->getName() }, { "fn", dem(e.F) }, { "loc", locOf(e.I) }, { "how", e.how } });
    }
    // C library functions that keep process-wide state
    static const std::set<std::string> unsafe = { "rand", "srand", "strtok", "localtime", "gmtime", "asctime", "ctime", "setlocale", "putenv", "setenv", "unsetenv", "tmpnam", "strerror", "lgamma", "lgammaf", "lgammal", "random", "srandom", "drand48", "srand48",
        "mrand48", "lrand48", "setbuf", "signal", "fesetround", "gamma", "readdir", "basename", "dirname", "getenv_s", "std::locale::global" };
    unsigned nlib = 0;
    for (Function& F : *M)
    {
        if (!F.isDeclaration()) continue;
        ++nlib;
        bool bad = unsafe.count(F.getName().str()) || F.getName().starts_with("_ZNSt6locale6globalERKS_");
        if (!bad || F.getName() == "fesetround") continue;
        for (auto* U : F.users()) if (auto* CB = dyn_cast<CallBase>(U)) emit(json::Object{ { "kind", "libc" }, { "callee", F.getName() }, { "fn", dem(CB->getFunction()) }, { "loc", locOf(CB) } });
    }
    unsigned nf = 0; for (Function& F : *M) nf += !F.isDeclaration();
    emit(json::Object{ { "kind", "stats" }, { "globals", nglob }, { "functions", nf }, { "owners", nacc }, { "externals", nlib } });
}

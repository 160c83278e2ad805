// D04: locking, key agreement and plan lifetime of the shared plan cache.
//   cachelock public-name,public-name,... bc...
#include "common.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"

static const DataLayout* DLp;
static void base(const Value* V, const Value*& B, int64_t& off)
{
    off = 0;
    while (true)
    {
        if (auto* G = dyn_cast<GEPOperator>(V))
        {
            APInt a(64, 0);
            if (!G->accumulateConstantOffset(*DLp, a)) break;
            off += a.getSExtValue(); V = G->getPointerOperand(); continue;
        }
        break;
    }
    B = V;
}
// same address, structurally
static bool sameAddr(const Value* A, const Value* B, int d = 0)
{
    if (A == B) return true;
    if (d > 6) return false;
    const Value *a, *b; int64_t x, y; base(A, a, x); base(B, b, y);
    if (x != y) return false;
    if (a == b) return true;
    auto* la = dyn_cast<LoadInst>(a); auto* lb = dyn_cast<LoadInst>(b);
    if (la && lb) return sameAddr(la->getPointerOperand(), lb->getPointerOperand(), d + 1);
    auto* ga = dyn_cast<GetElementPtrInst>(a); auto* gb = dyn_cast<GetElementPtrInst>(b);
    if (ga && gb && ga->getNumOperands() == gb->getNumOperands() && ga->getSourceElementType() == gb->getSourceElementType())
    {
        for (unsigned i = 1; i < ga->getNumOperands(); ++i) if (ga->getOperand(i) != gb->getOperand(i)) return false;
        return sameAddr(ga->getPointerOperand(), gb->getPointerOperand(), d + 1);
    }
    return false;
}
static std::string planKind(const std::string& d)
{
    auto p = d.find("dft_plan_real<"); bool real = p != std::string::npos;
    if (!real) p = d.find("dft_plan<");
    if (p == std::string::npos) return "";
    auto b = d.find('<', p), e = d.find('>', b);
    return std::string(real ? "real_" : "complex_") + d.substr(b + 1, e - b - 1);
}
static bool isPlanCtor(const std::string& d)
{
    static const char* k[] = { "dft_plan<float>::dft_plan(", "dft_plan<double>::dft_plan(", "dft_plan_real<float>::dft_plan_real(", "dft_plan_real<double>::dft_plan_real(" };
    for (auto* s : k) if (d.find(s) != std::string::npos) return true;
    return false;
}

typedef std::pair<const Value*, int64_t> Lock;
typedef std::set<Lock> Locks;

int main(int argc, char** argv)
{
    LLVMContext C;
    std::vector<std::string> paths(argv + 2, argv + argc);
    std::set<std::string> pub;
    { std::string s = argv[1]; size_t p = 0; while (p < s.size()) { auto q = s.find(',', p); if (q == std::string::npos) q = s.size(); pub.insert(s.substr(p, q - p)); p = q + 1; } }
    auto M = loadAndLink(C, paths);
    DLp = &M->getDataLayout();
    std::map<std::string, int64_t> offs;
    for (auto k : { "complex_float", "complex_double", "real_float", "real_double" })
    {
        auto* G = M->getNamedGlobal(std::string("d04_off_") + k);
        if (!G || !G->hasInitializer()) die("size offset witness missing");
        offs[k] = cast<ConstantInt>(G->getInitializer())->getSExtValue();
    }
    std::vector<Function*> roots; std::map<Function*, std::string> nm;
    for (auto& F : *M)
    {
        if (F.isDeclaration()) continue;
        auto d = dem(F.getName());
        auto p = d.find("dft_cache_impl<0>::");
        bool root = false;
        std::string head = d.substr(0, d.find('('));
        auto hp = head.find("dft_cache_impl<0>::");
        if (hp != std::string::npos && head.rfind("::") == hp + 17)
        {
            std::string n = head.substr(hp + 19);
            auto lt = n.find('<'); if (lt != std::string::npos) n = n.substr(0, lt);
            if (pub.count(n) && n != "instance") { root = true; roots.push_back(&F); nm[&F] = d; }
        }
        bool keep = root || isPlanCtor(d) || d.find("_Sp_counted_base<") != std::string::npos && d.find("::_M_release") != std::string::npos || d.find("dft_execute<") != std::string::npos ||
                    d.find("dft_plan<") != std::string::npos && (d.find("::~dft_plan") != std::string::npos || d.find(">::execute") != std::string::npos || d.find("execute_dft") != std::string::npos) ||
                    d.find("::~dft_plan_real") != std::string::npos || head.size() > 10 && head.compare(head.size() - 10, 10, "::instance") == 0;
        F.removeFnAttr(Attribute::OptimizeNone);
        if (keep) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); }
        else if (d.find("dft_cache_impl") != std::string::npos || d.find("std::") == 0 || d.find("__gnu_cxx") != std::string::npos || d.find("std::") != std::string::npos && d.find("__gthread") == std::string::npos)
        { F.removeFnAttr(Attribute::NoInline); F.addFnAttr(Attribute::AlwaysInline); }
        (void)p;
    }
    // drop what is not needed so that the optimiser stays fast
    {
        std::vector<const Function*> rs(roots.begin(), roots.end());
        auto users = std::vector<const Function*>();
        for (auto& F : *M) for (auto& I : instructions(F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* G = CB->getCalledFunction()) if (nm.count(G)) { users.push_back(&F); break; }
        for (auto& F : *M)
        {
            if (F.isDeclaration()) continue;
            bool k = false;
            for (auto* r : rs) k |= r == &F;
            for (auto* u : users) k |= u == &F;
            auto d = dem(F.getName());
            if (!k && !F.hasFnAttribute(Attribute::AlwaysInline) && !F.getName().starts_with("d04_") ) { if (F.hasFnAttribute(Attribute::NoInline)) { F.deleteBody(); F.setComdat(nullptr); } }
        }
    }
    {
        PipelineTuningOptions PTO; PTO.SLPVectorization = false; PTO.LoopVectorization = false; PTO.LoopUnrolling = false; PTO.LoopInterleaving = false; PTO.MergeFunctions = false;
        PassBuilder PB(nullptr, PTO);
        LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        ModulePassManager MPM;
        for (auto& F : *M) if (F.hasFnAttribute(Attribute::NoInline) && !F.isDeclaration()) F.setLinkage(GlobalValue::ExternalLinkage), F.setComdat(nullptr);
        MPM.addPass(AlwaysInlinerPass());
        MPM.addPass(PB.buildModuleSimplificationPipeline(OptimizationLevel::O2, ThinOrFullLTOPhase::None));
        MPM.run(*M, MAM);
    }
    for (auto* F : roots)
    {
        if (F->isDeclaration()) continue;
        json::Object o; o["kind"] = "root"; o["fn"] = nm[F]; o["loc"] = locOf(F);
        const Argument *self = nullptr, *sret = nullptr, *size = nullptr;
        for (auto& A : F->args()) { if (A.hasStructRetAttr()) sret = &A; else if (!self && A.getType()->isPointerTy()) self = &A; else if (A.getType()->isIntegerTy(64)) size = &A; }
        if (!self) die("no object argument in " + nm[F]);
        // locks held
        auto lockOf = [&](const Value* P, Lock& L) { base(P, L.first, L.second); return L.first == self || isa<GlobalVariable>(L.first); };
        std::map<const BasicBlock*, Locks> in; std::set<const BasicBlock*> seen; in[&F->getEntryBlock()] = {}; seen.insert(&F->getEntryBlock());
        std::map<const Instruction*, Locks> at;
        std::vector<std::string> bad; unsigned lockOps = 0, accesses = 0;
        bool ch = true;
        while (ch)
        {
            ch = false;
            for (auto& B : *F)
            {
                if (!seen.count(&B)) continue;
                Locks L = in[&B];
                for (auto& I : B)
                {
                    at[&I] = L;
                    if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* G = calledFn(CB))
                    {
                        Lock k;
                        if (G->getName() == "pthread_mutex_lock" && lockOf(CB->getArgOperand(0), k)) L.insert(k);
                        if (G->getName() == "pthread_mutex_unlock") { if (lockOf(CB->getArgOperand(0), k)) L.erase(k); else L.clear(); }
                    }
                }
                for (auto* S : successors(&B))
                    if (seen.insert(S).second) { in[S] = L; ch = true; }
                    else { Locks m; std::set_intersection(L.begin(), L.end(), in[S].begin(), in[S].end(), std::inserter(m, m.end())); if (m != in[S]) { in[S] = m; ch = true; } }
            }
        }
        // may-held at exits: recompute with union
        std::map<const BasicBlock*, Locks> inU; std::set<const BasicBlock*> seenU{ &F->getEntryBlock() }; ch = true;
        std::map<const Instruction*, Locks> atU;
        while (ch)
        {
            ch = false;
            for (auto& B : *F)
            {
                if (!seenU.count(&B)) continue;
                Locks L = inU[&B];
                // a failing lock call leads to a throw: the error edge is modelled by the may set shrinking only on unlock
                for (auto& I : B)
                {
                    atU[&I] = L;
                    if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* G = calledFn(CB))
                    {
                        Lock k;
                        if (G->getName() == "pthread_mutex_lock" && lockOf(CB->getArgOperand(0), k)) { if (L.count(k)) bad.push_back("locks a mutex that may already be held at " + locOf(&I)); L.insert(k); ++lockOps; }
                        if (G->getName() == "pthread_mutex_unlock" && lockOf(CB->getArgOperand(0), k)) L.erase(k);
                    }
                }
                for (auto* S : successors(&B))
                {
                    bool n = seenU.insert(S).second;
                    for (auto& k : L) n |= inU[S].insert(k).second;
                    ch |= n;
                }
            }
        }
        for (auto& B : *F)
        {
            auto* T = B.getTerminator();
            if ((isa<ReturnInst>(T) || isa<ResumeInst>(T)) && !atU[T].empty())
            {
                bad.push_back("leaves with the lock held at " + locOf(T));
            }
        }
        // values that point into the cache object or its storage
        std::set<const Value*> T{ self };
        ch = true;
        while (ch)
        {
            ch = false;
            for (auto& I : instructions(*F))
            {
                if (T.count(&I) || !I.getType()->isPointerTy()) continue;
                bool t = false;
                if (auto* G = dyn_cast<GetElementPtrInst>(&I)) t = T.count(G->getPointerOperand());
                else if (auto* P = dyn_cast<PHINode>(&I)) for (auto& v : P->incoming_values()) t |= T.count(v);
                else if (auto* S = dyn_cast<SelectInst>(&I)) t = T.count(S->getTrueValue()) || T.count(S->getFalseValue());
                else if (auto* L = dyn_cast<LoadInst>(&I)) t = T.count(L->getPointerOperand());
                if (t) { T.insert(&I); ch = true; }
            }
        }
        std::set<Lock> common; bool first = true;
        auto access = [&](const Instruction* I, const char* what)
        {
            ++accesses;
            if (!seen.count(I->getParent())) return;
            auto& L = at[I];
            if (L.empty()) bad.push_back(std::string(what) + " the shared cache without holding its lock at " + locOf(I));
            if (first) { common = Locks(L); first = false; }
            else { Locks m; std::set_intersection(L.begin(), L.end(), common.begin(), common.end(), std::inserter(m, m.end())); common = m; }
        };
        for (auto& I : instructions(*F))
        {
            if (auto* L = dyn_cast<LoadInst>(&I)) { if (T.count(L->getPointerOperand())) access(&I, "reads"); }
            else if (auto* S = dyn_cast<StoreInst>(&I)) { if (T.count(S->getPointerOperand())) access(&I, "writes"); }
            else if (auto* A = dyn_cast<AtomicRMWInst>(&I)) { if (T.count(A->getPointerOperand())) access(&I, "updates"); }
            else if (auto* X = dyn_cast<AtomicCmpXchgInst>(&I)) { if (T.count(X->getPointerOperand())) access(&I, "updates"); }
            else if (auto* R = dyn_cast<ReturnInst>(&I)) { if (R->getReturnValue() && T.count(R->getReturnValue())) bad.push_back("returns a pointer into the shared cache at " + locOf(&I)); }
            else if (auto* CB = dyn_cast<CallBase>(&I))
            {
                auto* G = calledFn(CB);
                if (G && (G->getName().starts_with("pthread_mutex_") || G->getName().starts_with("llvm.lifetime") || G->getName().starts_with("llvm.dbg") || G->getName().starts_with("llvm.assume") || G->getName().starts_with("llvm.experimental.noalias"))) continue;
                bool t = false; for (auto& a : CB->args()) t |= a->getType()->isPointerTy() && T.count(a.get());
                if (!t) continue;
                if (G && nm.count(const_cast<Function*>(G))) { if (!atU[&I].empty()) bad.push_back("calls " + nm[const_cast<Function*>(G)] + " with the lock held at " + locOf(&I)); continue; }
                access(&I, "passes storage of");
            }
        }
        if (!first && common.empty() && bad.empty()) bad.push_back("accesses the cache under different mutexes");
        std::string lk; for (auto& l : common) lk += (isa<GlobalVariable>(l.first) ? l.first->getName().str() : std::string("this")) + "+" + std::to_string(l.second) + " ";
        // ------------------------------------------------------------ the plan handed out
        std::vector<std::string> keybad; unsigned leaves = 0; std::string kinds;
        if (sret && size)
        {
            DominatorTree DT(*F);
            struct Ctor { const CallBase* c; const Value* b; int64_t o; std::string k; };
            std::vector<Ctor> ctors; std::string kind;
            for (auto& I : instructions(*F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* G = calledFn(CB)) { auto d = dem(G->getName()); if (isPlanCtor(d)) { Ctor c; c.c = CB; base(CB->getArgOperand(0), c.b, c.o); c.k = planKind(d); ctors.push_back(c); if (kind.empty()) kind = c.k; else if (kind != c.k) keybad.push_back("creates plans of different kinds"); } }
            kinds = kind;
            auto isSize = [&](const Value* V) { return V == size; };
            // does "V->size == size" hold in block B (reached through edge E->To if given)?
            auto fact = [&](const Value* V, const BasicBlock* B, const BasicBlock* To)
            {
                for (auto& I : instructions(*F))
                {
                    auto* IC = dyn_cast<ICmpInst>(&I);
                    if (!IC || !IC->isEquality()) continue;
                    const Value *x = IC->getOperand(0), *y = IC->getOperand(1);
                    if (isSize(x)) std::swap(x, y);
                    if (!isSize(y)) continue;
                    auto* L = dyn_cast<LoadInst>(x); if (!L) continue;
                    const Value* b; int64_t o; base(L->getPointerOperand(), b, o);
                    const Value* vb; int64_t vo; base(V, vb, vo);
                    if (!(b == vb || sameAddr(b, vb)) || o - vo != offs[kind]) continue;
                    for (auto* U : IC->users()) if (auto* BI = dyn_cast<BranchInst>(U))
                    {
                        BasicBlock* S = BI->getSuccessor(IC->getPredicate() == ICmpInst::ICMP_EQ ? 0 : 1);
                        BasicBlockEdge E(BI->getParent(), S);
                        if (E.isSingleEdge() && DT.dominates(E, B)) return true;
                        if (To && BI->getParent() == B && S == To) return true;
                    }
                }
                return false;
            };
            std::set<std::tuple<const Value*, const BasicBlock*, const BasicBlock*>> done;
            std::function<void(const Value*, const BasicBlock*, const BasicBlock*, const Instruction*)> walk = [&](const Value* V, const BasicBlock* B, const BasicBlock* To, const Instruction* At)
            {
                if (!done.insert({ V, B, To }).second) return;
                for (auto& c : ctors)
                {
                    const Value* vb; int64_t vo; base(V, vb, vo);
                    if (vb == c.b && vo == c.o)
                    {
                        ++leaves;
                        if (!isSize(c.c->getArgOperand(1))) keybad.push_back("hands out a plan constructed at " + locOf(c.c) + " with a size other than the requested one");
                        if (!DT.dominates(c.c->getParent(), B)) keybad.push_back("hands out a plan that is not constructed on every path");
                        return;
                    }
                }
                if (fact(V, B, To)) { ++leaves; return; }
                if (auto* P = dyn_cast<PHINode>(V)) { for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) walk(P->getIncomingValue(i), P->getIncomingBlock(i), P->getParent(), At); return; }
                if (auto* S = dyn_cast<SelectInst>(V)) { walk(S->getTrueValue(), B, To, At); walk(S->getFalseValue(), B, To, At); return; }
                if (auto* L = dyn_cast<LoadInst>(V))
                    if (auto* P = dyn_cast<PHINode>(L->getPointerOperand()))
                    {
                        // the element address is selected by control flow: judge each alternative by an equality on an element at that address
                        bool all = true;
                        for (unsigned i = 0; i < P->getNumIncomingValues(); ++i)
                        {
                            bool ok = false;
                            for (auto& I : instructions(*F)) if (auto* L2 = dyn_cast<LoadInst>(&I)) if (L2->getType()->isPointerTy() && sameAddr(L2->getPointerOperand(), P->getIncomingValue(i)) && fact(L2, P->getIncomingBlock(i), P->getParent())) ok = true;
                            all &= ok;
                        }
                        if (all) { ++leaves; return; }
                    }
                // back() of a container right after the new plan was appended
                if (auto* L = dyn_cast<LoadInst>(V))
                {
                    const Value* e; int64_t eo; base(L->getPointerOperand(), e, eo);
                    std::set<int64_t> slots; std::set<const Value*> vis;
                    std::function<bool(const Value*)> isEnd = [&](const Value* X) -> bool
                    {
                        if (!vis.insert(X).second) return true;
                        if (auto* LX = dyn_cast<LoadInst>(X)) { const Value* b; int64_t o; base(LX->getPointerOperand(), b, o); if (b == self && o % 24 == 8) { slots.insert(o); return true; } }
                        for (auto* U : X->users()) if (auto* S = dyn_cast<StoreInst>(U)) if (S->getValueOperand() == X) { const Value* b; int64_t o; base(S->getPointerOperand(), b, o); if (b == self && o % 24 == 8) { slots.insert(o); return true; } }
                        if (auto* P = dyn_cast<PHINode>(X)) { for (auto& v : P->incoming_values()) if (!isEnd(v)) return false; return true; }
                        return false;
                    };
                    // the address is either end-16 or the old end (before the append)
                    bool at = eo == -16 && isEnd(e);
                    if (!at) if (auto* P = dyn_cast<PHINode>(e)) { at = eo == -16; for (auto& v : P->incoming_values()) { const Value* b; int64_t o; base(v, b, o); bool ok = isEnd(v); at &= ok; } }
                    if (at && slots.size() == 1)
                        for (auto& c : ctors) if (DT.dominates(c.c->getParent(), B) && isSize(c.c->getArgOperand(1))) { ++leaves; return; }
                }
                if (isa<ConstantPointerNull>(V)) { keybad.push_back("may hand out a null plan at " + locOf(At)); return; }
                ++leaves;
                keybad.push_back("hands out a cached plan at " + locOf(At) + " without having found its size field equal to the requested size");
            };
            unsigned st = 0;
            for (auto& I : instructions(*F))
                if (auto* S = dyn_cast<StoreInst>(&I))
                {
                    const Value* b; int64_t o; base(S->getPointerOperand(), b, o);
                    if (b == sret && o == 0) { if (isa<ConstantPointerNull>(S->getValueOperand())) continue; ++st; walk(S->getValueOperand(), S->getParent(), nullptr, S); }
                }
            if (!st) keybad.push_back("no store of the returned plan found");
        }
        o["bad"] = json::Array(bad); o["key"] = json::Array(keybad); o["accesses"] = accesses; o["locks"] = lockOps; o["lock"] = lk; o["leaves"] = leaves; o["plan"] = kinds;
        emit(std::move(o));
    }
    // ---------------------------------------------------------------- users: the plan outlives its last use
    for (auto& F : *M)
    {
        if (F.isDeclaration() || nm.count(&F)) continue;
        std::vector<CallBase*> gets;
        for (auto& I : instructions(F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* G = calledFn(CB)) if (nm.count(G) && CB->arg_size() && CB->paramHasAttr(0, Attribute::StructRet)) gets.push_back(CB);
        if (gets.empty()) continue;
        for (auto* g : gets)
        {
            const Value* slot = g->getArgOperand(0)->stripPointerCasts();
            // pointers to the plan: loads of the slot; uses: calls with such a pointer (or a derived one), loads
            std::set<const Value*> P; std::set<const Value*> N;
            for (auto& I : instructions(F)) if (auto* L = dyn_cast<LoadInst>(&I)) { const Value* b; int64_t o; base(L->getPointerOperand(), b, o); if (b == slot) { if (o == 0) P.insert(L); else N.insert(L); } }
            bool ch = true;
            while (ch) { ch = false; for (auto& I : instructions(F)) if (!P.count(&I) && I.getType()->isPointerTy()) { bool t = false; if (auto* G = dyn_cast<GetElementPtrInst>(&I)) t = P.count(G->getPointerOperand()); if (auto* ph = dyn_cast<PHINode>(&I)) for (auto& v : ph->incoming_values()) t |= P.count(v); if (t) { P.insert(&I); ch = true; } } }
            // releases of the ownership held in the slot
            std::vector<const Instruction*> rel;
            for (auto& I : instructions(F))
            {
                if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* G = calledFn(CB)) { auto d = dem(G->getName()); if (d.find("::_M_release") != std::string::npos && (N.count(CB->getArgOperand(0)->stripPointerCasts()) )) rel.push_back(&I); }
            }
            std::vector<std::string> bad; unsigned uses = 0;
            for (auto& I : instructions(F))
            {
                bool u = false;
                if (auto* CB = dyn_cast<CallBase>(&I)) { auto* G = calledFn(CB); if (G && G->isIntrinsic() && G->getName().contains("lifetime")) continue; for (auto& a : CB->args()) u |= P.count(a.get()); }
                else if (auto* L = dyn_cast<LoadInst>(&I)) u = P.count(L->getPointerOperand());
                if (!u) continue;
                ++uses;
                for (auto* r : rel)
                {
                    // reachable from r without passing the lookup again?
                    std::set<const BasicBlock*> S; std::vector<const BasicBlock*> W; bool hit = false;
                    if (r->getParent() == I.getParent() && r->comesBefore(&I) && !(g->getParent() == r->getParent() && r->comesBefore(g) && g->comesBefore(&I))) hit = true;
                    for (auto* s : successors(r->getParent())) W.push_back(s);
                    while (!hit && !W.empty()) { auto* b = W.back(); W.pop_back(); if (!S.insert(b).second) continue; if (b == I.getParent() && !(g->getParent() == b && g->comesBefore(&I))) { hit = true; break; } if (b == g->getParent()) continue; for (auto* s : successors(b)) W.push_back(s); }
                    if (hit) bad.push_back("uses the plan at " + locOf(&I) + " after giving up its ownership at " + locOf(r));
                }
            }
            json::Object o; o["kind"] = "user"; o["fn"] = dem(F.getName()); o["loc"] = locOf(g); o["uses"] = uses; o["releases"] = (int64_t)rel.size(); o["bad"] = json::Array(bad);
            emit(std::move(o));
        }
    }
    return 0;
}

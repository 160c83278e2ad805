// D01/D03: effects of plan execution.  planeff ARCH facts.bc...
#include "prov.h"
#include <regex>
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"

static std::string otherArch(const std::string& n, const std::string& arch)
{
    static const std::pair<const char*, const char*> A[] = { { "sse2", "4sse2" }, { "sse41", "5sse41" }, { "avx", "3avx" }, { "avx2", "4avx2" }, { "avx512", "6avx512" } };
    std::string own;
    for (auto& a : A) if (arch == a.first) own = a.second;
    for (auto& a : A)
    {
        if (arch == a.first) continue;
        std::string pre = std::string("3kfr") + a.second;
        size_t p = n.find(pre);
        if (p == std::string::npos) continue;
        // "3avx" must not match "3avx..."-longer identifiers: length prefix makes it unambiguous
        std::string r = n;
        size_t q = 0;
        std::string pat = a.second;
        q = p + 4;
        r.replace(q, pat.size(), own);
        return r;
    }
    return "";
}

struct D03
{
    Prov& P;
    // facts under an assumption about the scratch argument
    struct Res { std::vector<std::string> allocs, nullUse; unsigned calls = 0; };
    std::map<std::tuple<const Function*, unsigned, bool, int64_t>, bool> seen;   // (fn, scratch arg, nonnull?, off_temp)
    std::vector<std::string> stack;
    Res R;
    explicit D03(Prov& p) : P(p) {}

    static bool derived(const Value* V, const Value* A, int d = 0)
    {
        if (V == A) return true;
        if (d > 12) return false;
        if (auto* G = dyn_cast<GEPOperator>(V)) return derived(G->getPointerOperand(), A, d + 1);
        if (auto* C = dyn_cast<CastInst>(V)) return derived(C->getOperand(0), A, d + 1);
        return false;
    }
    enum Tri { F_, T_, U_ };
    // value of a condition given: arg A is (non)null, loads of temp_size are positive when A is null
    Tri cond(const Value* C, const Function& F, int arg, bool nonnull, int64_t offTemp, int d = 0)
    {
        if (d > 10) return U_;
        if (auto* K = dyn_cast<ConstantInt>(C)) return K->isZero() ? F_ : T_;
        if (auto* Z = dyn_cast<FreezeInst>(C)) return cond(Z->getOperand(0), F, arg, nonnull, offTemp, d + 1);
        if (auto* I = dyn_cast<ICmpInst>(C))
        {
            const Value *a = I->getOperand(0), *b = I->getOperand(1);
            auto* A = arg >= 0 ? F.getArg(arg) : nullptr;
            if (isa<ConstantPointerNull>(b) && (a == A || (nonnull && A && derived(a, A)) || isa<AllocaInst>(a)))
            {
                bool isnull = a == A ? !nonnull : false;
                if (I->getPredicate() == ICmpInst::ICMP_EQ) return isnull ? T_ : F_;
                if (I->getPredicate() == ICmpInst::ICMP_NE) return isnull ? F_ : T_;
            }
            auto* L = dyn_cast<LoadInst>(a);
            auto* K = dyn_cast<ConstantInt>(b);
            if (!nonnull && offTemp >= 0 && L && K && K->isZero())
            {
                APInt O(64, 0);
                auto* B = L->getPointerOperand()->stripAndAccumulateConstantOffsets(*DL_, O, true);
                if (isa<Argument>(B) && cast<Argument>(B)->getArgNo() == 0 && O.getSExtValue() == offTemp)
                {
                    if (I->getPredicate() == ICmpInst::ICMP_EQ) return F_;
                    if (I->getPredicate() == ICmpInst::ICMP_NE || I->getPredicate() == ICmpInst::ICMP_UGT) return T_;
                }
            }
            return U_;
        }
        if (auto* S = dyn_cast<SelectInst>(C))
        {
            Tri c = cond(S->getCondition(), F, arg, nonnull, offTemp, d + 1);
            if (c == T_) return cond(S->getTrueValue(), F, arg, nonnull, offTemp, d + 1);
            if (c == F_) return cond(S->getFalseValue(), F, arg, nonnull, offTemp, d + 1);
            Tri t = cond(S->getTrueValue(), F, arg, nonnull, offTemp, d + 1), f = cond(S->getFalseValue(), F, arg, nonnull, offTemp, d + 1);
            return t == f ? t : U_;
        }
        if (auto* B = dyn_cast<BinaryOperator>(C))
        {
            Tri x = cond(B->getOperand(0), F, arg, nonnull, offTemp, d + 1), y = cond(B->getOperand(1), F, arg, nonnull, offTemp, d + 1);
            if (B->getOpcode() == Instruction::And) return x == F_ || y == F_ ? F_ : (x == T_ && y == T_ ? T_ : U_);
            if (B->getOpcode() == Instruction::Or) return x == T_ || y == T_ ? T_ : (x == F_ && y == F_ ? F_ : U_);
            if (B->getOpcode() == Instruction::Xor) { if (x == U_ || y == U_) return U_; return x != y ? T_ : F_; }
        }
        return U_;
    }
    std::set<const BasicBlock*> reach(const Function& F, int arg, bool nonnull, int64_t offTemp)
    {
        std::set<const BasicBlock*> R; std::vector<const BasicBlock*> W{ &F.getEntryBlock() };
        while (!W.empty())
        {
            auto* B = W.back(); W.pop_back();
            if (!R.insert(B).second) continue;
            auto* T = B->getTerminator();
            if (auto* BI = dyn_cast<BranchInst>(T); BI && BI->isConditional())
            {
                Tri c = cond(BI->getCondition(), F, arg, nonnull, offTemp);
                if (c != F_) W.push_back(BI->getSuccessor(0));
                if (c != T_) W.push_back(BI->getSuccessor(1));
                continue;
            }
            for (auto* S : successors(B)) W.push_back(S);
        }
        return R;
    }
    // blocks that can reach a normal return
    static std::set<const BasicBlock*> canReturn(const Function& F)
    {
        std::set<const BasicBlock*> R; std::vector<const BasicBlock*> W;
        for (auto& B : F) if (isa<ReturnInst>(B.getTerminator())) W.push_back(&B);
        while (!W.empty())
        {
            auto* B = W.back(); W.pop_back();
            if (!R.insert(B).second) continue;
            for (auto* Q : predecessors(B)) W.push_back(Q);
        }
        return R;
    }
    std::string path() { std::string s; for (auto& x : stack) s += (s.empty() ? "" : " -> ") + x; return s; }

    // every allocation reachable when the scratch argument (index arg, or -1: none relevant) is non-null
    void nonnullWalk(const Function* F, int arg)
    {
        if (!seen.emplace(std::make_tuple(F, (unsigned)arg, true, 0), true).second) return;
        stack.push_back(dem(F));
        auto live = reach(*F, arg, true, -1);
        auto ret = canReturn(*F);
        for (auto* B : live)
        {
            if (!ret.count(B)) continue;   // error path: every continuation throws or terminates
            for (auto& I : *B)
            {
                auto* CB = dyn_cast<CallBase>(&I);
                if (!CB || isa<IntrinsicInst>(CB)) continue;
                ++R.calls;
                for (auto* G : P.candidates(CB))
                {
                    if (G->isDeclaration())
                    {
                        if (Prov::isAllocFn(G->getName()) || G->getName() == "posix_memalign")
                            R.allocs.push_back(dem(G) + " at " + locOf(&I) + " via " + path());
                        continue;
                    }
                    // which callee argument carries the scratch pointer
                    int carg = -1;
                    if (arg >= 0)
                        for (unsigned i = 0; i < CB->arg_size(); ++i)
                            if (CB->getArgOperand(i)->getType()->isPointerTy() && i < G->arg_size())
                                if (derived(CB->getArgOperand(i), F->getArg(arg))) carg = i;
                    if (carg < 0)
                        for (unsigned i = 0; i < CB->arg_size() && i < G->arg_size(); ++i)
                            if (isa<AllocaInst>(getUnderlyingObject(CB->getArgOperand(i))) && i == 3) carg = i;
                    nonnullWalk(G, carg);
                }
            }
        }
        stack.pop_back();
    }
    // uses of a null scratch pointer
    void nullWalk(const Function* F, unsigned arg, int64_t offTemp)
    {
        if (!seen.emplace(std::make_tuple(F, arg, false, offTemp), true).second) return;
        stack.push_back(dem(F));
        auto live = reach(*F, arg, false, offTemp);
        auto* A = F->getArg(arg);
        std::vector<const Value*> W{ A }; std::set<const Value*> sv;
        while (!W.empty())
        {
            auto* V = W.back(); W.pop_back();
            if (!sv.insert(V).second) continue;
            for (auto* U : V->users())
            {
                auto* I = dyn_cast<Instruction>(U);
                if (!I || !live.count(I->getParent())) continue;
                if (isa<ICmpInst>(I)) continue;
                if (auto* CB = dyn_cast<CallBase>(I))
                {
                    if (isa<IntrinsicInst>(CB) && !CB->mayReadOrWriteMemory()) continue;
                    bool direct = calledFn(CB) != nullptr;
                    for (unsigned i = 0; i < CB->arg_size(); ++i)
                        if (CB->getArgOperand(i) == V)
                        {
                            if (!direct) { R.nullUse.push_back("null scratch passed to an indirect call at " + locOf(I) + " via " + path()); continue; }
                            auto* G = P.resolveDirect(calledFn(CB));
                            if (G->isDeclaration()) R.nullUse.push_back("null scratch passed to " + dem(G) + " at " + locOf(I) + " via " + path());
                            else nullWalk(G, i, offTemp);   // plan pointer is argument 0 of every wrapper
                        }
                    continue;
                }
                if (isa<PHINode>(I) || isa<CastInst>(I) || isa<SelectInst>(I)) { W.push_back(I); continue; }
                if (isa<GetElementPtrInst>(I)) { R.nullUse.push_back("address computed from the null scratch pointer at " + locOf(I) + " via " + path()); continue; }
                if (auto* S = dyn_cast<StoreInst>(I); S && S->getValueOperand() == V) continue;
                R.nullUse.push_back("null scratch used at " + locOf(I) + " via " + path());
            }
        }
        // obtained scratch: released on every way out, and at least temp_size bytes
        for (auto* B : live)
            for (auto& I : *B)
                if (auto* CB = dyn_cast<CallBase>(&I))
                    if (auto* G = calledFn(CB)) if (Prov::isAllocFn(G->getName()))
                    {
                        obtained++;
                        checkRelease(*F, CB);
                        if (!atLeastTempSize(CB->getArgOperand(0), offTemp)) R.nullUse.push_back("the scratch obtained at " + locOf(&I) + " is not sized by the plan's temp_size");
                    }
        // stack scratch: the array must cover every temp_size admitted by the branch leading to it
        for (auto* B : live)
            for (auto& I : *B)
                if (auto* AI = dyn_cast<AllocaInst>(&I))
                {
                    auto* AT = dyn_cast<ArrayType>(AI->getAllocatedType());
                    if (!AT || !AT->getElementType()->isIntegerTy(8) || AT->getNumElements() < 64) continue;
                    obtained++;
                    bool ok = false;
                    for (auto* B2 : live)
                        if (auto* BI = dyn_cast<BranchInst>(B2->getTerminator()); BI && BI->isConditional())
                            if (auto* IC = dyn_cast<ICmpInst>(BI->getCondition()))
                                if (auto* K = dyn_cast<ConstantInt>(IC->getOperand(1)); K && atLeastTempSize(IC->getOperand(0), offTemp, true))
                                {
                                    uint64_t lim = K->getZExtValue(), n = AT->getNumElements();
                                    auto p = IC->getPredicate();
                                    if ((p == ICmpInst::ICMP_ULT || p == ICmpInst::ICMP_UGE) && lim - 1 <= n && lim > 1) ok = true;
                                    if ((p == ICmpInst::ICMP_ULE || p == ICmpInst::ICMP_UGT) && lim <= n && lim > 0) ok = true;
                                }
                    if (!ok) R.nullUse.push_back("stack scratch of " + std::to_string(AT->getNumElements()) + " bytes at " + locOf(&I) + " is not bounded by a comparison with temp_size");
                }
        stack.pop_back();
    }
    unsigned obtained = 0;
    static bool atLeastTempSize(const Value* V, int64_t offTemp, bool exact = false, int d = 0)
    {
        if (d > 6) return false;
        if (auto* L = dyn_cast<LoadInst>(V))
        {
            APInt O(64, 0);
            auto* B = L->getPointerOperand()->stripAndAccumulateConstantOffsets(*DL_, O, true);
            return isa<Argument>(B) && cast<Argument>(B)->getArgNo() == 0 && O.getSExtValue() == offTemp;
        }
        if (exact) return false;
        if (auto* BO = dyn_cast<BinaryOperator>(V); BO && BO->getOpcode() == Instruction::Add)
            if (auto* K = dyn_cast<ConstantInt>(BO->getOperand(1)); K && !K->isNegative()) return atLeastTempSize(BO->getOperand(0), offTemp, false, d + 1);
        return false;
    }
    void checkRelease(const Function& F, const CallBase* A)
    {
        std::set<const BasicBlock*> freed;
        // dropping the only reference releases the block (that the last decrement frees it is M01)
        for (auto& I : instructions(F))
            if (auto* RM = dyn_cast<AtomicRMWInst>(&I))
                if ((RM->getOperation() == AtomicRMWInst::Sub || RM->getOperation() == AtomicRMWInst::Add) && base(RM->getPointerOperand(), A)) freed.insert(I.getParent());
        for (auto& I : instructions(F))
            if (auto* CB = dyn_cast<CallBase>(&I))
                if (auto* G = calledFn(CB))
                {
                    if (Prov::isFreeFn(G->getName()) && CB->arg_size() && base(CB->getArgOperand(0), A)) freed.insert(I.getParent());
                    // destructor of the local owner
                    if (CB->arg_size() == 1 && isa<AllocaInst>(CB->getArgOperand(0)) && !G->isDeclaration() && holds(cast<AllocaInst>(CB->getArgOperand(0)), A, 0) && frees(G)) freed.insert(I.getParent());
                }
        std::set<const BasicBlock*> seenB; std::vector<const BasicBlock*> W;
        // paths on which the allocation failed do not count
        for (auto* S : successors(A->getParent()))
        {
            if (auto* BI = dyn_cast<BranchInst>(A->getParent()->getTerminator()); BI && BI->isConditional())
                if (auto* IC = dyn_cast<ICmpInst>(BI->getCondition()); IC && isa<ConstantPointerNull>(IC->getOperand(1)) && base(IC->getOperand(0), A))
                    if (S == BI->getSuccessor(IC->getPredicate() == ICmpInst::ICMP_EQ ? 0 : 1)) continue;
            if (auto* IV = dyn_cast<InvokeInst>(A); IV && S == IV->getUnwindDest()) continue;
            W.push_back(S);
        }
        if (isa<ReturnInst>(A->getParent()->getTerminator()) && !freed.count(A->getParent())) R.nullUse.push_back("scratch obtained at " + locOf(A) + " is never released");
        if (freed.count(A->getParent())) return;
        while (!W.empty())
        {
            auto* B = W.back(); W.pop_back();
            if (!seenB.insert(B).second || freed.count(B)) continue;
            auto* T = B->getTerminator();
            if (isa<ReturnInst>(T) || isa<ResumeInst>(T)) { R.nullUse.push_back("scratch obtained at " + locOf(A) + " in " + dem(&F) + " is not released on the path leaving (" + T->getOpcodeName() + ") at " + locOf(T)); return; }
            if (auto* BI = dyn_cast<BranchInst>(T); BI && BI->isConditional())
                if (auto* IC = dyn_cast<ICmpInst>(BI->getCondition()); IC && IC->isEquality() && isa<ConstantPointerNull>(IC->getOperand(1)) && base(IC->getOperand(0), A))
                {
                    W.push_back(BI->getSuccessor(IC->getPredicate() == ICmpInst::ICMP_EQ ? 1 : 0));   // the obtained pointer is not null
                    continue;
                }
            for (auto* S : successors(B)) W.push_back(S);
        }
    }
    // local owner objects: the pointer is stored in them
    static bool holds(const AllocaInst* H, const Value* A, int d)
    {
        for (auto* U : H->users())
            if (auto* S = dyn_cast<StoreInst>(U)) if (S->getPointerOperand() == H && base(S->getValueOperand(), A, d + 1)) return true;
        return false;
    }
    static bool frees(const Function* F, int d = 0)
    {
        if (d > 4) return false;
        for (auto& I : instructions(*F))
            if (auto* CB = dyn_cast<CallBase>(&I))
                if (auto* G = calledFn(CB)) { if (Prov::isFreeFn(G->getName()) || (!G->isDeclaration() && frees(G, d + 1))) return true; }
        return false;
    }
    static bool base(const Value* V, const Value* A, int d = 0)
    {
        if (V == A) return true;
        if (d > 16) return false;
        if (auto* I = dyn_cast<Instruction>(V))
        {
            if (auto* L = dyn_cast<LoadInst>(I)) { if (auto* H = dyn_cast<AllocaInst>(L->getPointerOperand())) return holds(H, A, d); return false; }
            if ((isa<CallBase>(I) && !isa<IntrinsicInst>(I))) return false;
            for (auto& u : I->operands()) if (base(u.get(), A, d + 1)) return true;
        }
        if (auto* G = dyn_cast<GEPOperator>(V)) return base(G->getPointerOperand(), A, d + 1);
        return false;
    }
};

// D05: which transforms an execute overload runs
struct D05
{
    Prov& P; D03 H;
    std::set<std::string> runs, throws, args; unsigned indirect = 0;
    std::set<std::tuple<const Function*, int, bool>> seen;
    explicit D05(Prov& p) : P(p), H(p) {}
    static int rootArg(const Value* V) { std::set<const Value*> seen; return rootArg(V, seen); }
    // index of the argument V is reached from; 100 local/obtained memory, -2 nothing (cycle, null), -1 unknown or several
    static int rootArg(const Value* V, std::set<const Value*>& seen)
    {
        if (auto* A = dyn_cast<Argument>(V)) return A->getArgNo();
        if (isa<ConstantPointerNull>(V) || !seen.insert(V).second) return -2;
        if (auto* G = dyn_cast<GEPOperator>(V)) return rootArg(G->getPointerOperand(), seen);
        if (auto* C = dyn_cast<CastInst>(V)) return rootArg(C->getOperand(0), seen);
        if (auto* L = dyn_cast<LoadInst>(V)) return rootArg(L->getPointerOperand(), seen);
        if (isa<AllocaInst>(V)) return 100;
        if (auto* CB = dyn_cast<CallBase>(V))
        {
            auto* G = calledFn(CB);
            if (G && Prov::isAllocFn(G->getName())) return 100;
            if (G && !G->isDeclaration() && CB->arg_size() == 1) return rootArg(CB->getArgOperand(0), seen);   // accessor such as data()
            return -1;
        }
        if (isa<PHINode>(V) || isa<SelectInst>(V))
        {
            int r = -2;
            auto* I = cast<Instruction>(V);
            for (unsigned i = isa<SelectInst>(V) ? 1 : 0; i < I->getNumOperands(); ++i)
            {
                int q = rootArg(I->getOperand(i), seen);
                if (q == -2) continue;
                if (r == -2) r = q; else if (r != q) return -1;
            }
            return r;
        }
        return -1;
    }
    void walk(const Function* F, int arg, bool nonnull, int64_t offTemp, int depth)
    {
        if (depth > 6 || !seen.emplace(F, arg, nonnull).second) return;
        auto live = H.reach(*F, arg, nonnull, offTemp);
        for (auto* B : live)
            for (auto& I : *B)
            {
                auto* CB = dyn_cast<CallBase>(&I);
                if (!CB || isa<IntrinsicInst>(CB)) continue;
                auto* G = calledFn(CB);
                if (!G) { ++indirect; continue; }
                std::string d = dem(G);
                static const std::regex rx("::dft_execute<(float|double), (true|false)>");
                std::smatch m;
                if (std::regex_search(d, m, rx))
                {
                    runs.insert(m[1].str() + (m[2].str() == "true" ? " inverse" : " forward"));
                    if (CB->arg_size() >= 4)
                    {
                        unsigned n = CB->arg_size();
                        std::string a;
                        for (unsigned i : { 0u, n - 3, n - 2, n - 1 }) a += (a.empty() ? "" : ",") + std::to_string(rootArg(CB->getArgOperand(i)));
                        args.insert(a);
                    }
                    continue;
                }
                G = const_cast<Function*>(P.resolveDirect(G));
                if (G->isDeclaration()) { if (G->getName() == "__cxa_throw") throws.insert(locOf(&I)); continue; }
                if (d.find("cometa::as_string") != std::string::npos || d.find("std::") == 0) continue;
                if (depth == 0 && !H.canReturn(*F).count(B)) { throws.insert(locOf(&I)); continue; }
                walk(G, -1, nonnull, -1, depth + 1);
            }
    }
};

int main(int argc, char** argv)
{
    std::string arch = argv[1];
    LLVMContext C;
    std::vector<std::string> files(argv + 2, argv + argc);
    auto M = loadAndLink(C, files);
    for (Function& F : *M)
    {
        if (F.isDeclaration()) continue;
        std::string dn = dem(&F);
        static const std::regex ex("kfr::(dft|dct)_plan(|_real|_md|_md_real)<[^ ]*?( [0-9a-z]+)?>::execute(_dft)?[<(]");
        if (dn.find("call_with_temp") != std::string::npos || std::regex_search(dn, ex)) { F.removeFnAttr(Attribute::NoInline); F.addFnAttr(Attribute::AlwaysInline); }
    }
    {
        LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
        PipelineTuningOptions PTO; PTO.SLPVectorization = false; PTO.LoopVectorization = false; PTO.LoopUnrolling = false;
        PassBuilder PB(nullptr, PTO);
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
        PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1).run(*M, MAM);
        FunctionPassManager FPM;
        FPM.addPass(SROAPass(SROAOptions::ModifyCFG)); FPM.addPass(EarlyCSEPass(true)); FPM.addPass(InstCombinePass()); FPM.addPass(SimplifyCFGPass());
        FPM.addPass(SROAPass(SROAOptions::ModifyCFG)); FPM.addPass(EarlyCSEPass(true)); FPM.addPass(InstCombinePass()); FPM.addPass(SimplifyCFGPass());
        FunctionAnalysisManager F2; PassBuilder PB2; PB2.registerFunctionAnalyses(F2);
        LoopAnalysisManager L2; CGSCCAnalysisManager C2; ModuleAnalysisManager M2;
        PB2.registerModuleAnalyses(M2); PB2.registerCGSCCAnalyses(C2); PB2.registerLoopAnalyses(L2); PB2.crossRegisterProxies(L2, F2, C2, M2);
        for (Function& F : *M) if (F.getName().starts_with("px_")) FPM.run(F, F2);
    }
    Prov P(*M);
    P.normalPathsOnly = true;
    for (Function& F : *M)
        if (F.isDeclaration()) { auto o = otherArch(F.getName().str(), arch); if (!o.empty()) P.nameAlias[F.getName().str()] = o; }
    std::map<std::string, int64_t> offs;
    for (GlobalVariable& G : M->globals())
        if (G.getName().starts_with("off_temp_")) offs[G.getName().str()] = cast<ConstantInt>(G.getInitializer())->getSExtValue();

    struct Root { const Function* F; std::string role; };
    std::vector<Root> roots;
    std::set<const Function*> fns;
    static const std::regex rx("::do_execute\\(cometa::cval_t<bool, (true|false)>, std::complex<(float|double)>\\*, std::complex<(float|double)> const\\*, unsigned char\\*\\)$");
    std::set<const Function*> vt;
    for (auto& kv : P.vslot) for (auto* F : kv.second) vt.insert(F);
    for (Function& F : *M)
    {
        if (F.isDeclaration()) continue;
        std::string d = dem(&F);
        if (vt.count(&F) && std::regex_search(d, rx)) roots.push_back({ &F, "stage" });
        else if (vt.count(&F) && d.find("::copy_input(") != std::string::npos) roots.push_back({ &F, "copy" });
        else if (F.getName().starts_with("px_")) roots.push_back({ &F, "exec" });
        else continue;
        fns.insert(&F);
    }
    P.solve(fns);
    for (auto& r : roots)
    {
        const Summary& Z = P.sum[r.F];
        json::Array w, ex;
        for (auto& x : Z.writes) w.push_back(json::Object{ { "ref", refStr(x.first) }, { "arg", x.first.k == B_ARG ? (int64_t)x.first.id : -1 }, { "depth", (int64_t)x.first.path.size() },
                                                            { "off", x.first.path.empty() ? 0 : x.first.path[0] }, { "loc", x.second }, { "global", x.first.k == B_GLOBAL } });
        for (auto& e : Z.externals) ex.push_back(e);
        emit(json::Object{ { "kind", "root" }, { "role", r.role }, { "fn", r.F->getName() }, { "dem", dem(r.F) }, { "loc", locOf(r.F) }, { "nargs", (int64_t)r.F->arg_size() },
                           { "writes", std::move(w) }, { "externals", std::move(ex) } });
    }
    // D03
    for (auto& r : roots)
    {
        if (r.role == "copy") continue;
        D03 A(P), B(P);
        unsigned ta = r.F->arg_size() - 1;
        bool uv = r.role == "exec" && (r.F->getName().contains("_uvbool_") || r.F->getName().contains("_uvtag_") || r.F->getName().contains("_uv_"));
        if (!uv) A.nonnullWalk(r.F, ta);
        json::Array al, nu;
        for (auto& s : A.R.allocs) al.push_back(s);
        if (r.role == "exec" && !uv)
        {
            std::string n = r.F->getName().str();
            auto parts = n.substr(3);
            std::string kind = parts.substr(0, parts.find('_')), T = n.substr(n.size() - 3);
            auto it = offs.find("off_temp_" + kind + "_" + T);
            if (it == offs.end()) die("no offset for " + n);
            B.nullWalk(r.F, ta, it->second);
            for (auto& s : B.R.nullUse) nu.push_back(s);
        }
        emit(json::Object{ { "kind", "d03" }, { "role", r.role }, { "fn", r.F->getName() }, { "dem", dem(r.F) }, { "uv", uv }, { "allocs", std::move(al) }, { "nulluse", std::move(nu) }, { "calls", (int64_t)A.R.calls }, { "obtained", (int64_t)B.obtained } });
    }
    for (auto& r : roots)
    {
        if (r.role != "exec") continue;
        std::string n = r.F->getName().str(), parts = n.substr(3);
        auto it = offs.find("off_temp_" + parts.substr(0, parts.find('_')) + "_" + n.substr(n.size() - 3));
        for (bool nonnull : { true, false })
        {
            D05 A(P);
            A.walk(r.F, r.F->arg_size() - 1, nonnull, it == offs.end() ? -1 : it->second, 0);
            json::Array ru, th, ar;
            for (auto& x : A.runs) ru.push_back(x);
            for (auto& x : A.throws) th.push_back(x);
            for (auto& x : A.args) ar.push_back(x);
            emit(json::Object{ { "kind", "d05" }, { "fn", n }, { "loc", locOf(r.F) }, { "nonnull", nonnull }, { "runs", std::move(ru) }, { "throws", std::move(th) }, { "args", std::move(ar) }, { "indirect", (int64_t)A.indirect } });
        }
    }
    emit(json::Object{ { "kind", "stats" }, { "functions", (int64_t)P.analysed.size() } });
    return 0;
}

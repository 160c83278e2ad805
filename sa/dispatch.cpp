// R01: for every function that asks for the CPU level, fold the level to each possible value and list the
// architecture-specific functions still called, with the provenance of their arguments.   dispatch bc...
#include "common.h"
#include <regex>
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Scalar/SCCP.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "llvm/Transforms/Utils/Cloning.h"

static std::string archOf(StringRef n)
{
    static const std::regex rx("^_ZN[KVRO]*3kfr(4sse2|4sse3|5ssse3|5sse41|5sse42|3avx|4avx2|6avx512)");
    std::smatch m; std::string s = n.str();
    if (!std::regex_search(s, m, rx)) return "";
    return m[1].str().substr(1);
}
static std::string neutral(const std::string& s)
{
    static const std::regex rx("(4sse2|4sse3|5ssse3|5sse41|5sse42|3avx|4avx2|6avx512)");
    return std::regex_replace(s, rx, "ARCH");
}
static bool isLevelFn(const Function* F) { return F && (dem(F).find("kfr::get_cpu()") == 0); }

static std::string root(const Value* V, std::set<const Value*>& seen)
{
    if (!seen.insert(V).second) return "";
    if (auto* A = dyn_cast<Argument>(V)) return "p" + std::to_string(A->getArgNo());
    if (isa<UndefValue>(V)) return "undef";
    if (isa<Constant>(V)) return "const";
    if (auto* C = dyn_cast<CastInst>(V)) return root(C->getOperand(0), seen);
    if (auto* E = dyn_cast<ExtractValueInst>(V)) return root(E->getAggregateOperand(), seen) + "." + std::to_string(E->getIndices()[0]);
    if (auto* L = dyn_cast<LoadInst>(V))
    {
        auto* P = getUnderlyingObject(L->getPointerOperand());
        if (isa<AllocaInst>(P)) return root(P, seen);
        auto r = root(L->getPointerOperand(), seen);
        return r.size() && r[0] == 'p' ? r + "->" : "load";
    }
    if (auto* G = dyn_cast<GetElementPtrInst>(V))
    {
        // a fixed place in one of the caller's objects
        APInt off(64, 0); if (!G->accumulateConstantOffset(G->getModule()->getDataLayout(), off)) return "?";
        auto r = root(G->getPointerOperand(), seen); if (r.empty() || r[0] != 'p') return "?";
        return off.isZero() ? r : r + "+" + std::to_string(off.getSExtValue());
    }
    if (auto* AI = dyn_cast<AllocaInst>(V))
    {
        std::set<std::string> rs;
        std::vector<const Value*> W{ AI };
        while (!W.empty())
        {
            auto* X = W.back(); W.pop_back();
            for (auto* U : X->users())
            {
                if (isa<GetElementPtrInst>(U) || isa<CastInst>(U)) { W.push_back(U); continue; }
                if (auto* S = dyn_cast<StoreInst>(U)) { if (S->getPointerOperand() == X) { auto r = root(S->getValueOperand(), seen); if (!r.empty()) rs.insert(r); } }
                if (auto* CB = dyn_cast<CallBase>(U); CB && !isa<IntrinsicInst>(CB) && CB->arg_size() == 2 && CB->getArgOperand(0) == X && CB->getArgOperand(1)->getType()->isPointerTy())
                    if (auto* G = calledFn(CB); G && (G->getName().contains("C2E") || G->getName().contains("C1E")))   // copy construction of a by-value argument
                    { auto r = root(getUnderlyingObject(CB->getArgOperand(1)), seen); if (!r.empty()) rs.insert(r); }
                if (auto* MT = dyn_cast<MemTransferInst>(U)) if (MT->getRawDest() == X) { auto r = root(getUnderlyingObject(MT->getSource()), seen); if (!r.empty()) rs.insert(r); }
            }
        }
        std::string s; for (auto& r : rs) s += (s.empty() ? "" : "+") + r;
        return s.empty() ? "local" : s;
    }
    return "?";
}

int main(int argc, char** argv)
{
    LLVMContext C;
    auto M = loadAndLink(C, std::vector<std::string>(argv + 1, argv + argc));
    // helpers that merely return (something derived from) the level are folded into their callers
    for (int round = 0; round < 4; ++round)
    {
        std::set<Function*> helpers;
        for (Function& F : *M)
        {
            if (F.isDeclaration() || isLevelFn(&F) || !archOf(F.getName()).empty()) continue;
            bool level = false, arch = false;
            for (auto& I : instructions(F))
                if (auto* CB = dyn_cast<CallBase>(&I))
                    if (auto* G = calledFn(CB)) { level |= isLevelFn(G); arch |= !archOf(G->getName()).empty(); }
            if (level && !arch) helpers.insert(&F);
        }
        bool any = false;
        for (Function& F : *M)
        {
            std::vector<CallBase*> cs;
            for (auto& I : instructions(F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (helpers.count(calledFn(CB)) && calledFn(CB) != &F) cs.push_back(CB);
            for (auto* CB : cs) { InlineFunctionInfo II; any |= InlineFunction(*CB, II).isSuccess(); }
        }
        if (!any) break;
    }
    FunctionAnalysisManager FAM; LoopAnalysisManager LAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    std::vector<Function*> users;
    for (Function& F : *M)
    {
        if (F.isDeclaration()) continue;
        bool level = false;
        for (auto& I : instructions(F)) if (auto* CB = dyn_cast<CallBase>(&I)) level |= isLevelFn(calledFn(CB));
        if (level) users.push_back(&F);
    }
    for (Function* F : users)
    {
        F->removeFnAttr(Attribute::OptimizeNone);
        FunctionPassManager F0;
        F0.addPass(SROAPass(SROAOptions::ModifyCFG)); F0.addPass(EarlyCSEPass(true)); F0.addPass(InstCombinePass()); F0.addPass(SimplifyCFGPass());
        F0.run(*F, FAM);
        FAM.clear(*F, F->getName());
        json::Array levels;
        for (int v = 0; v <= 8; ++v)
        {
            ValueToValueMapTy VM;
            Function* K = CloneFunction(F, VM);
            std::vector<CallBase*> cs;
            for (auto& I : instructions(*K)) if (auto* CB = dyn_cast<CallBase>(&I)) if (isLevelFn(calledFn(CB))) cs.push_back(CB);
            for (auto* CB : cs) CB->replaceAllUsesWith(ConstantInt::get(CB->getType(), v));
            FunctionPassManager FPM;
            FPM.addPass(SCCPPass()); FPM.addPass(SimplifyCFGPass()); FPM.addPass(SROAPass(SROAOptions::ModifyCFG)); FPM.addPass(EarlyCSEPass(true)); FPM.addPass(InstCombinePass()); FPM.addPass(SCCPPass()); FPM.addPass(SimplifyCFGPass());
            FPM.run(*K, FAM);
            json::Array calls; bool unreachableOnly = isa<UnreachableInst>(K->getEntryBlock().getTerminator());
            for (auto& I : instructions(*K))
                if (auto* CB = dyn_cast<CallBase>(&I))
                    if (auto* G = calledFn(CB))
                    {
                        auto a = archOf(G->getName());
                        if (a.empty()) continue;
                        json::Array args;
                        for (unsigned i = 0; i < CB->arg_size(); ++i)
                        {
                            if (CB->paramHasAttr(i, Attribute::StructRet)) { args.push_back("sret"); continue; }
                            std::set<const Value*> seen;
                            args.push_back(root(CB->getArgOperand(i), seen));
                        }
                        calls.push_back(json::Object{ { "arch", a }, { "name", G->getName() }, { "neutral", neutral(G->getName().str()) }, { "dem", dem(G) }, { "args", std::move(args) }, { "loc", locOf(&I) } });
                    }
            levels.push_back(json::Object{ { "level", v }, { "dead", unreachableOnly }, { "calls", std::move(calls) } });
            FAM.clear(*K, K->getName());
            K->eraseFromParent();
        }
        json::Array params;
        for (auto& A : F->args()) params.push_back(A.hasStructRetAttr() ? "sret" : A.getName().str());
        emit(json::Object{ { "kind", "dispatcher" }, { "name", F->getName() }, { "dem", dem(F) }, { "loc", locOf(F) }, { "params", std::move(params) }, { "levels", std::move(levels) } });
    }
    return 0;
}

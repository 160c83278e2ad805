// Shared helpers for the IR analyzers.
#pragma once
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <string>
#include <functional>
#include <algorithm>
using namespace llvm;

[[noreturn]] static inline void die(const std::string& s)
{
    errs() << "analysis-broken: " << s << "\n";
    exit(2);
}

static inline std::unique_ptr<Module> loadModule(LLVMContext& C, const std::string& path)
{
    SMDiagnostic Err;
    auto M = parseIRFile(path, Err, C);
    if (!M) die("cannot load " + path + ": " + Err.getMessage().str());
    return M;
}

static inline std::unique_ptr<Module> loadAndLink(LLVMContext& C, const std::vector<std::string>& paths)
{
    std::unique_ptr<Module> M = loadModule(C, paths[0]);
    Linker L(*M);
    for (size_t i = 1; i < paths.size(); ++i)
        if (L.linkInModule(loadModule(C, paths[i]))) die("link failed: " + paths[i]);
    return M;
}

static inline void runPipeline(Module& M, const std::string& pipe)
{
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (auto E = PB.parsePassPipeline(MPM, pipe)) die("bad pipeline " + pipe);
    MPM.run(M, MAM);
}

static inline std::string locOf(const Instruction* I)
{
    if (!I) return "?";
    if (const DebugLoc& L = I->getDebugLoc())
    {
        const DILocation* D = L.get();
        std::string s = D->getFilename().str() + ":" + std::to_string(D->getLine());
        // outermost location too, when inlined
        const DILocation* O = D;
        while (O->getInlinedAt()) O = O->getInlinedAt();
        if (O != D) s += " (inlined at " + O->getFilename().str() + ":" + std::to_string(O->getLine()) + ")";
        return s;
    }
    return "?";
}
static inline std::string locOf(const Function* F)
{
    if (F && F->getSubprogram())
        return F->getSubprogram()->getFilename().str() + ":" + std::to_string(F->getSubprogram()->getLine());
    return "?";
}
static inline std::string dem(StringRef n) { return llvm::demangle(n.str()); }
static inline std::string dem(const Value* v) { return v ? dem(v->getName()) : std::string("<indirect>"); }
static inline const Function* calledFn(const CallBase* CB)
{
    return dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
}
static inline Function* calledFn(CallBase* CB)
{
    return dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
}
static inline void emit(json::Object o) { outs() << json::Value(std::move(o)) << "\n"; }

// every function/global a constant refers to
static inline void constRefs(const Constant* C, std::set<const GlobalValue*>& out, std::set<const Constant*>& seen)
{
    if (!seen.insert(C).second) return;
    if (auto* G = dyn_cast<GlobalValue>(C)) { out.insert(G); return; }
    for (const Use& U : C->operands())
        if (auto* K = dyn_cast<Constant>(U.get())) constRefs(K, out, seen);
}

// functions reachable from roots through direct calls, referenced addresses and referenced globals (RTA style)
static inline std::set<const Function*> reachableFunctions(const std::vector<const Function*>& roots)
{
    std::set<const Function*> R;
    std::set<const GlobalValue*> seenG;
    std::vector<const GlobalValue*> work(roots.begin(), roots.end());
    while (!work.empty())
    {
        const GlobalValue* G = work.back(); work.pop_back();
        if (!seenG.insert(G).second) continue;
        std::set<const GlobalValue*> refs; std::set<const Constant*> seen;
        if (auto* F = dyn_cast<Function>(G))
        {
            R.insert(F);
            for (const Instruction& I : instructions(*F))
                for (const Use& U : I.operands())
                    if (auto* K = dyn_cast<Constant>(U.get())) constRefs(K, refs, seen);
        }
        else if (auto* V = dyn_cast<GlobalVariable>(G))
        {
            if (V->hasInitializer()) constRefs(V->getInitializer(), refs, seen);
        }
        else if (auto* A = dyn_cast<GlobalAlias>(G)) constRefs(A->getAliasee(), refs, seen);
        for (auto* g : refs) work.push_back(g);
    }
    return R;
}

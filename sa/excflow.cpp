// Exception flow over linked, unoptimised IR.
//   excflow bc...   : entry points are the exported C functions (unmangled names, default visibility) of modules
// Emits one JSON object per entry point, one per live terminate site reachable from an entry point.
#include "common.h"

static std::map<const Function*, const Instruction*> cause; // why a function may unwind
static std::set<const Function*> mayUnwind;

static bool axiomNoUnwind(StringRef n)
{
    // the C++ runtime's own handler bookkeeping
    return n == "__cxa_begin_catch" || n == "__cxa_end_catch" || n == "__cxa_free_exception" ||
           n == "__cxa_allocate_exception" || n == "__cxa_guard_release" || n == "__cxa_guard_abort" ||
           n == "__clang_call_terminate" || n == "_ZSt9terminatev" || n == "__cxa_atexit" || n == "__cxa_thread_atexit" ||
           n.starts_with("llvm.");
}

static bool calleeMayUnwind(const CallBase* CB)
{
    if (CB->doesNotThrow()) return false;
    if (CB->isInlineAsm()) return false;
    const Function* F = calledFn(CB);
    if (!F) return true; // indirect
    if (F->doesNotThrow() || axiomNoUnwind(F->getName())) return false;
    if (F->isDeclaration()) return true;
    return mayUnwind.count(F);
}

static bool padCatchesAll(const LandingPadInst* LP)
{
    if (LP->isCleanup()) return true; // control is transferred to the pad; a later resume is accounted for separately
    for (unsigned i = 0; i < LP->getNumClauses(); ++i)
        if (LP->isCatch(i) && isa<ConstantPointerNull>(LP->getClause(i))) return true;
    return false;
}

// blocks live when unwind edges are taken only for callees that may unwind
static std::set<const BasicBlock*> liveBlocks(const Function& F)
{
    std::set<const BasicBlock*> L;
    std::vector<const BasicBlock*> W{ &F.getEntryBlock() };
    while (!W.empty())
    {
        const BasicBlock* B = W.back(); W.pop_back();
        if (!L.insert(B).second) continue;
        if (auto* I = dyn_cast<InvokeInst>(B->getTerminator()))
        {
            W.push_back(I->getNormalDest());
            if (calleeMayUnwind(I)) W.push_back(I->getUnwindDest());
            continue;
        }
        for (const BasicBlock* S : successors(B)) W.push_back(S);
    }
    return L;
}

// A landing pad that catches everything only because it is a cleanup reaches `resume`; a handler dispatch on type ids
// whose last clause is catch-all never reaches it at run time, but unoptimised IR may still contain a resume block for
// nested pads.  Prune: within a pad with a null (catch-all) clause, `resume` of that pad's value is dead.
static bool resumeIsLive(const ResumeInst* R, const std::set<const BasicBlock*>& live)
{
    // find landing pads whose value can flow here: walk back over live blocks
    std::set<const BasicBlock*> seen; std::vector<const BasicBlock*> W{ R->getParent() };
    bool any = false;
    while (!W.empty())
    {
        const BasicBlock* B = W.back(); W.pop_back();
        if (!seen.insert(B).second || !live.count(B)) continue;
        if (B->isLandingPad())
        {
            const LandingPadInst* LP = B->getLandingPadInst();
            bool all = false;
            for (unsigned i = 0; i < LP->getNumClauses(); ++i)
                if (LP->isCatch(i) && isa<ConstantPointerNull>(LP->getClause(i))) all = true;
            if (!all) any = true;
            // do not walk past the pad that produced the exception
            if (!all) return true;
            continue;
        }
        for (const BasicBlock* P : predecessors(B)) W.push_back(P);
    }
    return any;
}

static const Instruction* computeUnwind(const Function& F)
{
    auto live = liveBlocks(F);
    for (const BasicBlock& B : F)
    {
        if (!live.count(&B)) continue;
        for (const Instruction& I : B)
        {
            if (auto* CI = dyn_cast<CallInst>(&I))
            {
                if (calleeMayUnwind(CI)) return &I;
            }
            else if (auto* II = dyn_cast<InvokeInst>(&I))
            {
                if (calleeMayUnwind(II) && !padCatchesAll(II->getLandingPadInst())) return &I;
            }
            else if (auto* R = dyn_cast<ResumeInst>(&I))
            {
                if (resumeIsLive(R, live)) return &I;
            }
        }
    }
    return nullptr;
}

static std::string chain(const Function* F)
{
    std::string s; int n = 0;
    while (F && n++ < 12)
    {
        auto it = cause.find(F);
        if (it == cause.end() || !it->second) break;
        const Instruction* I = it->second;
        if (auto* CB = dyn_cast<CallBase>(I))
        {
            const Function* G = calledFn(CB);
            s += " -> " + (G ? dem(G) : std::string("<indirect call>")) + " @" + locOf(I);
            F = (G && !G->isDeclaration()) ? G : nullptr;
        }
        else { s += " -> rethrow/resume @" + locOf(I); F = nullptr; }
    }
    return s;
}

int main(int argc, char** argv)
{
    LLVMContext C;
    std::vector<std::string> in(argv + 1, argv + argc);
    auto M = loadAndLink(C, in);
    // greatest-fixpoint from below: iterate until stable
    bool changed = true; int rounds = 0;
    while (changed)
    {
        changed = false; ++rounds;
        for (const Function& F : *M)
        {
            if (F.isDeclaration() || mayUnwind.count(&F)) continue;
            if (F.doesNotThrow()) continue;
            if (const Instruction* I = computeUnwind(F)) { mayUnwind.insert(&F); cause[&F] = I; changed = true; }
        }
    }
    std::vector<const Function*> roots;
    for (const Function& F : *M)
        if (!F.isDeclaration() && F.hasExternalLinkage() && !F.getName().starts_with("_Z") && F.getName().starts_with("kfr_"))
            roots.push_back(&F);
    size_t invokes = 0, pads = 0;
    for (const Function* F : roots)
    {
        auto R = reachableFunctions({ F });
        size_t sites = 0;
        for (const Function* G : R)
            for (const Instruction& I : instructions(*G)) if (isa<CallBase>(I)) ++sites;
        bool bad = mayUnwind.count(F);
        emit(json::Object{ { "kind", "entry" }, { "fn", F->getName() }, { "loc", locOf(F) }, { "bad", bad },
                           { "reach", (int64_t)R.size() }, { "callsites", (int64_t)sites },
                           { "chain", bad ? dem(F) + chain(F) : std::string() } });
    }
    // terminate sites
    auto R = reachableFunctions(roots);
    size_t examined = 0;
    for (const Function* G : R)
    {
        if (G->isDeclaration()) continue;
        auto live = liveBlocks(*G);
        ++examined;
        for (const BasicBlock* B : live)
            for (const Instruction& I : *B)
                if (auto* CB = dyn_cast<CallBase>(&I))
                    if (auto* T = calledFn(CB))
                        if ((T->getName() == "__clang_call_terminate" || T->getName() == "_ZSt9terminatev") &&
                            G->getName() != "__clang_call_terminate")
                        {
                            // which live invoke leads here
                            std::string why;
                            for (const BasicBlock* P : live)
                                if (auto* II = dyn_cast<InvokeInst>(P->getTerminator()))
                                    if (calleeMayUnwind(II))
                                    {
                                        // does its unwind edge reach B without passing another pad's normal path
                                        std::set<const BasicBlock*> seen; std::vector<const BasicBlock*> W{ II->getUnwindDest() };
                                        bool hit = false;
                                        while (!W.empty() && !hit)
                                        {
                                            auto* X = W.back(); W.pop_back();
                                            if (!seen.insert(X).second) continue;
                                            if (X == B) hit = true;
                                            if (auto* J = dyn_cast<InvokeInst>(X->getTerminator())) { W.push_back(J->getNormalDest()); continue; }
                                            for (auto* S : successors(X)) W.push_back(S);
                                        }
                                        if (hit)
                                        {
                                            const Function* K = calledFn(II);
                                            why = (K ? dem(K) : std::string("<indirect call>")) + " @" + locOf(II) + (K && !K->isDeclaration() ? chain(K) : "");
                                        }
                                    }
                            emit(json::Object{ { "kind", "terminate" }, { "fn", G->getName() }, { "dem", dem(G) }, { "loc", locOf(G) }, { "why", why } });
                        }
    }
    emit(json::Object{ { "kind", "summary" }, { "rounds", rounds }, { "functions", (int64_t)M->size() }, { "reachable", (int64_t)R.size() },
                       { "examined", (int64_t)examined }, { "mayunwind", (int64_t)mayUnwind.size() } });
    return 0;
}

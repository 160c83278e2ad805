// R03: mergeable definitions of each module with the target features they are compiled for, and what its start-up code does.
//   weaksyms name=bc...
#include "common.h"
static bool wide(const Instruction& I)
{
    auto fp = [](Type* T) { return T->isVectorTy() || T->isFloatingPointTy(); };
    if (fp(I.getType())) return true;
    for (auto& U : I.operands()) if (fp(U->getType())) return true;
    if (isa<MemIntrinsic>(I)) return true;
    return false;
}
int main(int argc, char** argv)
{
    for (int i = 1; i < argc; ++i)
    {
        StringRef a = argv[i]; auto [name, path] = a.split('=');
        LLVMContext C; auto M = loadModule(C, path.str());
        std::map<std::string, int> feat; int n = 0;
        for (Function& F : *M)
        {
            if (F.isDeclaration() || F.hasAvailableExternallyLinkage()) continue;
            ++n; 
            std::string f = F.getFnAttribute("target-features").getValueAsString().str();
            if (feat[f]++ == 0) emit(json::Object{ { "kind", "features" }, { "tu", name }, { "features", f }, { "sym", F.getName() }, { "loc", locOf(&F) } });
            if (!F.hasLocalLinkage()) emit(json::Object{ { "kind", "sym" }, { "tu", name }, { "sym", F.getName() }, { "weak", F.isWeakForLinker() }, { "fn", true }, { "loc", locOf(&F) } });
        }
        for (GlobalVariable& G : M->globals())
            if (!G.isDeclaration() && !G.hasLocalLinkage() && !G.hasAppendingLinkage() && !G.getName().starts_with("llvm."))
                emit(json::Object{ { "kind", "sym" }, { "tu", name }, { "sym", G.getName() }, { "weak", G.isWeakForLinker() }, { "fn", false }, { "loc", "" } });
        // start-up code: the static initialisers and what they reach inside this object
        std::vector<const Function*> roots;
        for (auto* N : { "llvm.global_ctors", "llvm.global_dtors" })
            if (auto* GC = M->getNamedGlobal(N); GC && GC->hasInitializer())
            {
                std::set<const GlobalValue*> refs; std::set<const Constant*> seen; constRefs(GC->getInitializer(), refs, seen);
                for (auto* r : refs) if (auto* f = dyn_cast<Function>(r)) roots.push_back(f);
            }
        auto R = reachableFunctions(roots);
        int startup = 0;
        for (auto* F : R)
        {
            if (F->isDeclaration()) continue;
            ++startup;
            for (auto& I : instructions(*F)) if (wide(I))
            { emit(json::Object{ { "kind", "startup" }, { "tu", name }, { "sym", F->getName() }, { "local", F->hasLocalLinkage() }, { "loc", locOf(&I) }, { "op", I.getOpcodeName() } }); break; }
        }
        emit(json::Object{ { "kind", "stats" }, { "tu", name }, { "functions", n }, { "startup", startup } });
    }
}

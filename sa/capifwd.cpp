// Forwarding facts of the C API (A03).  capifwd capi.bc...
// The public C++ entry points (plan constructors/execute/dump, filter apply/reset, filter constructors) are kept out of
// line, everything else is inlined; then each exported function, and each virtual method of the objects it installs,
// is summarised as the list of entry points it calls with the provenance of every argument.
#include "common.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/Analysis/AssumptionCache.h"
#include <regex>

static bool keep(const std::string& d)
{
    static const std::regex re(
        "(^|[ ])kfr::(dft_plan|dft_plan_real|dft_plan_md|dft_plan_md_real|dct_plan)<[^>]*>::"
        "(execute|dump|dft_plan|dft_plan_real|dft_plan_md|dft_plan_md_real|dct_plan)[<(]|"
        "(^|[ ])kfr::(fir_filter|iir_filter|convolve_filter)<[^>]*>::(fir_filter|iir_filter|convolve_filter)[<(]|"
        "(^|[ ])kfr::filter<[^>]*>::(apply|reset)[<(]|(^|[ ])kfr::make_univector<");
    return std::regex_search(d, re);
}
static const DataLayout* DLp;

static std::string expr(const Value* V, int depth = 0);
static std::string ptrExpr(const Value* V, int depth)
{
    APInt O(64, 0);
    const Value* B = V->stripAndAccumulateConstantOffsets(*DLp, O, true);
    int64_t off = O.getSExtValue();
    std::string b;
    if (auto* G = dyn_cast<GEPOperator>(B)) { b = expr(G->getPointerOperand(), depth + 1) + "[*]"; }
    else b = expr(B, depth + 1);
    return off ? b + "+" + std::to_string(off) : b;
}
static std::string expr(const Value* V, int depth)
{
    if (depth > 8) return "?";
    if (auto* A = dyn_cast<Argument>(V)) return "arg" + std::to_string(A->getArgNo());
    if (auto* C = dyn_cast<ConstantInt>(V)) return "#" + std::to_string(C->getSExtValue());
    if (isa<ConstantPointerNull>(V)) return "null";
    if (isa<UndefValue>(V)) return "undef";
    if (isa<GEPOperator>(V)) return ptrExpr(V, depth);
    if (auto* G = dyn_cast<GlobalValue>(V)) return "@" + G->getName().str();
    if (auto* L = dyn_cast<LoadInst>(V)) return "load(" + ptrExpr(L->getPointerOperand(), depth) + ")";
    if (auto* A = dyn_cast<AllocaInst>(V)) return "local";
    if (auto* Z = dyn_cast<CastInst>(V)) return expr(Z->getOperand(0), depth);
    if (auto* F = dyn_cast<FreezeInst>(V)) return expr(F->getOperand(0), depth);
    if (auto* CB = dyn_cast<CallBase>(V)) { auto* F = calledFn(CB); return "call(" + (F ? dem(F) : std::string("*")) + ")"; }
    if (auto* P = dyn_cast<PHINode>(V)) return "phi";
    if (auto* S = dyn_cast<SelectInst>(V)) return "select(" + expr(S->getCondition(), depth + 1) + "," + expr(S->getTrueValue(), depth + 1) + "," + expr(S->getFalseValue(), depth + 1) + ")";
    if (auto* B = dyn_cast<BinaryOperator>(V)) return std::string(B->getOpcodeName()) + "(" + expr(B->getOperand(0), depth + 1) + "," + expr(B->getOperand(1), depth + 1) + ")";
    if (auto* I = dyn_cast<Instruction>(V)) return std::string(I->getOpcodeName());
    return "?";
}
// arguments a value depends on through data flow inside the function (including through memory of local objects)
static void deps(const Value* V, std::set<unsigned>& out, std::set<const Value*>& seen, int depth = 0)
{
    if (!seen.insert(V).second || depth > 40) return;
    if (auto* A = dyn_cast<Argument>(V)) { out.insert(A->getArgNo()); return; }
    auto* I = dyn_cast<Instruction>(V);
    if (!I) return;
    if (isa<AllocaInst>(I))
    {
        // everything stored into the local object
        std::vector<const Value*> W{ I }; std::set<const Value*> s2;
        while (!W.empty())
        {
            auto* X = W.back(); W.pop_back();
            if (!s2.insert(X).second) continue;
            for (auto* U : X->users())
            {
                if (isa<GEPOperator>(U) || isa<CastInst>(U) || isa<PHINode>(U)) W.push_back(U);
                if (auto* S = dyn_cast<StoreInst>(U)) if (S->getPointerOperand() == X) deps(S->getValueOperand(), out, seen, depth + 1);
                if (auto* C = dyn_cast<CallBase>(U))
                    for (auto& a : C->args()) if (a.get() != X) deps(a.get(), out, seen, depth + 1);
            }
        }
        return;
    }
    for (const Use& U : I->operands()) deps(U.get(), out, seen, depth + 1);
}

static json::Array callFacts(const Function& F)
{
    json::Array r;
    for (const BasicBlock& B : F)
        for (const Instruction& I : B)
        {
            auto* CB = dyn_cast<CallBase>(&I);
            if (!CB || isa<IntrinsicInst>(CB)) continue;
            const Function* G = calledFn(CB);
            json::Object o;
            json::Array args, ad, local;
            for (auto& a : CB->args())
            {
                args.push_back(expr(a.get()));
                std::set<unsigned> d; std::set<const Value*> seen; deps(a.get(), d, seen);
                json::Array da; for (auto x : d) da.push_back((int64_t)x);
                ad.push_back(std::move(da));
                // constant-offset stores into a local object passed by reference, in offset order
                json::Array st;
                if (auto* AI = dyn_cast<AllocaInst>(a.get()->stripPointerCasts()))
                {
                    std::map<int64_t, std::string> m;
                    for (const Instruction& J : instructions(F))
                        if (auto* S = dyn_cast<StoreInst>(&J))
                        {
                            APInt O(64, 0);
                            if (S->getPointerOperand()->stripAndAccumulateConstantOffsets(*DLp, O, true) == AI) m[O.getSExtValue()] = expr(S->getValueOperand());
                        }
                    for (auto& kv : m) st.push_back(json::Array{ kv.first, kv.second });
                }
                local.push_back(std::move(st));
            }
            o["args"] = std::move(args); o["deps"] = std::move(ad); o["local"] = std::move(local);
            o["loc"] = locOf(&I);
            if (G) { o["callee"] = G->getName(); o["dem"] = dem(G); }
            else
            {
                const Value* C = CB->getCalledOperand();
                o["virt"] = expr(C);
            }
            r.push_back(std::move(o));
        }
    return r;
}

// loads and arithmetic in the backward slice of the returned value
static json::Array retSlice(const Function* F)
{
    std::set<std::string> out;
    if (F && !F->isDeclaration())
        for (const Instruction& I : instructions(*F))
            if (auto* R = dyn_cast<ReturnInst>(&I)) if (R->getReturnValue())
            {
                std::vector<const Value*> W{ R->getReturnValue() }; std::set<const Value*> seen;
                while (!W.empty())
                {
                    auto* v = W.back(); W.pop_back();
                    if (!seen.insert(v).second) continue;
                    auto* J = dyn_cast<Instruction>(v);
                    if (!J) { if (isa<ConstantInt>(v)) out.insert(expr(v)); continue; }
                    if (auto* L = dyn_cast<LoadInst>(J)) { out.insert(expr(L)); W.push_back(L->getPointerOperand()); continue; }
                    if (auto* B = dyn_cast<BinaryOperator>(J)) out.insert(B->getOpcodeName());
                    if (isa<GEPOperator>(J)) { W.push_back(cast<GEPOperator>(J)->getPointerOperand()); continue; }
                    for (auto& u : J->operands()) W.push_back(u.get());
                }
            }
    json::Array r; for (auto& s : out) r.push_back(s); return r;
}
static json::Object scevDesc(ScalarEvolution& SE, const Value* P, const DataLayout& DL)
{
    json::Object o;
    auto* V = const_cast<Value*>(P);
    if (!SE.isSCEVable(V->getType())) { o["expr"] = expr(V); return o; }
    const SCEV* S = SE.getSCEV(V);
    if (auto* R = dyn_cast<SCEVAddRecExpr>(S))
    {
        std::string st; raw_string_ostream os(st); R->getStepRecurrence(SE)->print(os); os.flush();
        o["step"] = st;
        S = R->getStart();
    }
    if (V->getType()->isPointerTy())
    {
        const SCEV* B = SE.getPointerBase(S);
        const SCEV* D = SE.getMinusSCEV(S, B);
        std::string st; raw_string_ostream os(st); D->print(os); os.flush();
        o["off"] = st;
        if (auto* U = dyn_cast<SCEVUnknown>(B)) o["base"] = expr(U->getValue());
    }
    o["expr"] = expr(V);
    return o;
}
// memory writes of a function: {address, value, trip count of the enclosing loop}
static json::Array storeFacts(Function& F)
{
    TargetLibraryInfoImpl TLII(Triple(F.getParent()->getTargetTriple())); TargetLibraryInfo TLI(TLII, &F);
    AssumptionCache AC(F); DominatorTree DT(F); LoopInfo LI(DT);
    ScalarEvolution SE(F, TLI, AC, DT, LI);
    json::Array r;
    for (Instruction& I : instructions(F))
    {
        json::Object o;
        if (auto* S = dyn_cast<StoreInst>(&I))
        {
            o["ptr"] = scevDesc(SE, S->getPointerOperand(), *DLp);
            const Value* V = S->getValueOperand();
            while (auto* Z = dyn_cast<CastInst>(V)) V = Z->getOperand(0);
            o["val"] = expr(V);
            if (auto* L = dyn_cast<LoadInst>(V)) o["from"] = scevDesc(SE, L->getPointerOperand(), *DLp);
            o["size"] = (int64_t)DLp->getTypeStoreSize(S->getValueOperand()->getType());
        }
        else if (auto* MC = dyn_cast<MemTransferInst>(&I))
        {
            o["ptr"] = scevDesc(SE, MC->getDest(), *DLp); o["from"] = scevDesc(SE, MC->getSource(), *DLp); o["len"] = expr(MC->getLength());
        }
        else continue;
        if (Loop* L = LI.getLoopFor(I.getParent()))
        {
            std::string st = "?";
            const SCEV* B = SE.getBackedgeTakenCount(L);
            if (!isa<SCEVCouldNotCompute>(B))
                for (Argument& A : F.args())
                    if (A.getType() == B->getType())
                    {
                        const SCEV* D = SE.getMinusSCEV(B, SE.getSCEV(&A));
                        if (D->isAllOnesValue()) st = "arg" + std::to_string(A.getArgNo());
                    }
            o["trip"] = st;
        }
        r.push_back(std::move(o));
    }
    return r;
}

int main(int argc, char** argv)
{
    LLVMContext C;
    auto M = loadAndLink(C, std::vector<std::string>(argv + 1, argv + argc));
    DLp = &M->getDataLayout();
    for (Function& F : *M)
    {
        if (F.isDeclaration()) continue;
        if (keep(dem(&F))) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); }
        else if (!F.hasFnAttribute(Attribute::NoInline) && !F.hasFnAttribute(Attribute::OptimizeNone)) F.addFnAttr(Attribute::InlineHint);
    }
    {
        LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
        PipelineTuningOptions PTO; PTO.SLPVectorization = false; PTO.LoopVectorization = false; PTO.InlinerThreshold = 1000;
        PassBuilder PB(nullptr, PTO);
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
        PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        PB.buildPerModuleDefaultPipeline(OptimizationLevel::O2).run(*M, MAM);
    }
    std::set<const GlobalVariable*> vts;
    for (Function& F : *M)
    {
        if (F.isDeclaration() || !F.getName().starts_with("kfr_")) continue;
        json::Array vt, rets;
        for (Instruction& I : instructions(F))
        {
            if (auto* S = dyn_cast<StoreInst>(&I))
            {
                auto* G = dyn_cast<GlobalVariable>(getUnderlyingObject(S->getValueOperand(), 0));
                if (G && G->getName().starts_with("_ZTV") && G->isConstant()) { vt.push_back(json::Array{ G->getName(), expr(S->getPointerOperand()) }); vts.insert(G); }
            }
            if (auto* R = dyn_cast<ReturnInst>(&I)) if (R->getReturnValue())
            {
                std::vector<const Value*> W{ R->getReturnValue() }; std::set<const Value*> seen;
                while (!W.empty()) { auto* v = W.back(); W.pop_back(); if (!seen.insert(v).second) continue;
                    if (auto* P = dyn_cast<PHINode>(v)) { for (auto& u : P->incoming_values()) W.push_back(u.get()); continue; }
                    rets.push_back(expr(v)); }
            }
        }
        std::string ty; raw_string_ostream os(ty); os << *F.getFunctionType(); os.flush();
        emit(json::Object{ { "kind", "fn" }, { "fn", F.getName() }, { "type", ty }, { "loc", locOf(&F) }, { "calls", callFacts(F) }, { "vtables", std::move(vt) }, { "rets", std::move(rets) }, { "stores", storeFacts(F) } });
    }
    // vtables installed inside kept constructors
    for (Function& F : *M)
    {
        if (F.isDeclaration() || F.getName().starts_with("kfr_")) continue;
        std::string d = dem(&F);
        if (!keep(d)) continue;
        json::Array vt;
        for (Instruction& I : instructions(F))
            if (auto* S = dyn_cast<StoreInst>(&I))
                if (auto* G = dyn_cast<GlobalVariable>(getUnderlyingObject(S->getValueOperand(), 0)))
                    if (G->getName().starts_with("_ZTV")) { vt.push_back(json::Array{ G->getName(), expr(S->getPointerOperand()) }); vts.insert(G); }
        emit(json::Object{ { "kind", "kept" }, { "fn", F.getName() }, { "dem", d }, { "vtables", std::move(vt) }, { "calls", callFacts(F) } });
    }
    for (auto* G : vts)
    {
        if (!G->hasInitializer()) { emit(json::Object{ { "kind", "vtable" }, { "name", G->getName() }, { "external", true } }); continue; }
        auto* S = dyn_cast<ConstantStruct>(G->getInitializer());
        auto* A = S ? dyn_cast<ConstantArray>(S->getOperand(0)) : nullptr;
        json::Array m;
        for (unsigned i = 2; A && i < A->getNumOperands(); ++i)
        {
            auto* F = dyn_cast<Function>(A->getOperand(i)->stripPointerCasts());
            json::Array rets;
            if (F && !F->isDeclaration())
                for (Instruction& I : instructions(*F)) if (auto* R = dyn_cast<ReturnInst>(&I)) if (R->getReturnValue()) rets.push_back(expr(R->getReturnValue()));
            m.push_back(json::Object{ { "fn", F ? F->getName() : "" }, { "dem", F ? dem(F) : "" }, { "loc", locOf(F) }, { "decl", !F || F->isDeclaration() },
                                      { "calls", F && !F->isDeclaration() ? callFacts(*F) : json::Array() }, { "rets", std::move(rets) }, { "retslice", retSlice(F) } });
        }
        emit(json::Object{ { "kind", "vtable" }, { "name", G->getName() }, { "methods", std::move(m) } });
    }
    return 0;
}

// Error-slot discipline of the C API (A02).
//   capierr capi.bc...
// The error slot is the object whose address kfr_last_error returns.
#include "common.h"

static const GlobalVariable* slotOf(const Value* V, int64_t& off, const DataLayout& DL)
{
    APInt O(64, 0);
    const Value* B = V->stripAndAccumulateConstantOffsets(DL, O, true);
    off = O.getSExtValue();
    if (auto* II = dyn_cast<IntrinsicInst>(B))
        if (II->getIntrinsicID() == Intrinsic::threadlocal_address)
        {
            int64_t o2 = 0;
            auto* g = slotOf(II->getArgOperand(0), o2, DL);
            off += o2;
            return g;
        }
    return dyn_cast<GlobalVariable>(B);
}
// base global ignoring variable offsets; null unless every possible base is the same global
static const GlobalVariable* baseSlot(const Value* V)
{
    std::vector<const Value*> W{ V }; std::set<const Value*> seen; const GlobalVariable* res = nullptr;
    while (!W.empty())
    {
        const Value* X = W.back(); W.pop_back();
        if (!seen.insert(X).second) continue;
        if (!X->getType()->isPointerTy()) return nullptr;
        X = getUnderlyingObject(X, 0);
        if (auto* P = dyn_cast<PHINode>(X)) { for (auto& U : P->incoming_values()) W.push_back(U.get()); continue; }
        if (auto* S = dyn_cast<SelectInst>(X)) { W.push_back(S->getTrueValue()); W.push_back(S->getFalseValue()); continue; }
        if (auto* II = dyn_cast<IntrinsicInst>(X))
            if (II->getIntrinsicID() == Intrinsic::threadlocal_address) { W.push_back(II->getArgOperand(0)); continue; }
        auto* G = dyn_cast<GlobalVariable>(X);
        if (!G || (res && res != G)) return nullptr;
        res = G;
    }
    return res;
}

static GlobalVariable* Slot = nullptr;
static uint64_t SlotSize = 0;

enum Eff { None, Clear, Set };
static Eff effectOf(const Instruction& I, const DataLayout& DL)
{
    const Value* dst = nullptr; bool zero = false; const Value* len = nullptr;
    if (auto* S = dyn_cast<StoreInst>(&I)) { dst = S->getPointerOperand(); auto* C = dyn_cast<Constant>(S->getValueOperand()); zero = C && C->isNullValue(); }
    else if (auto* MS = dyn_cast<MemSetInst>(&I)) { dst = MS->getDest(); auto* C = dyn_cast<Constant>(MS->getValue()); zero = C && C->isNullValue(); len = MS->getLength(); }
    else if (auto* MT = dyn_cast<MemTransferInst>(&I)) { dst = MT->getDest(); }
    else return None;
    if (baseSlot(dst) != Slot) return None;
    if (!zero) return Set;
    int64_t off = -1;
    auto* g = slotOf(dst, off, DL);
    if (g == Slot && off == 0) return Clear; // the first byte becomes 0: the string is empty
    return None;                            // zero fill of the tail
}
struct Summary { bool set = false, clear = false; };
static std::map<const Function*, Summary> helper;

int main(int argc, char** argv)
{
    LLVMContext C;
    auto M = loadAndLink(C, std::vector<std::string>(argv + 1, argv + argc));
    const DataLayout& DL = M->getDataLayout();
    // 1. the slot, on an optimised copy
    {
        auto M2 = CloneModule(*M);
        runPipeline(*M2, "default<O2>");
        Function* F = M2->getFunction("kfr_last_error");
        if (!F || F->isDeclaration()) die("kfr_last_error not found");
        std::string name; int64_t off = 0; bool multi = false;
        for (Instruction& I : instructions(*F))
            if (auto* R = dyn_cast<ReturnInst>(&I))
            {
                auto* g = slotOf(R->getReturnValue(), off, DL);
                if (!g) { emit(json::Object{ { "kind", "slot" }, { "ok", false }, { "why", "kfr_last_error does not return the address of one object: " + locOf(R) } }); return 0; }
                if (!name.empty() && name != g->getName()) multi = true;
                name = g->getName().str();
                emit(json::Object{ { "kind", "slot" }, { "ok", g->isThreadLocal() && off == 0 && !multi }, { "name", g->getName() }, { "tls", g->isThreadLocal() }, { "off", off },
                                   { "size", (int64_t)DL.getTypeAllocSize(g->getValueType()) },
                                   { "why", g->isThreadLocal() ? (off ? "does not return the start of the message" : "") : "the error message object " + dem(g) + " is shared by all threads (not thread-local)" } });
            }
        Slot = M->getNamedGlobal(name);
        if (!Slot) die("slot vanished");
        SlotSize = DL.getTypeAllocSize(Slot->getValueType());
    }
    // 2. keep helpers that touch the slot and contain no handler out of line
    std::set<std::string> helpers;
    for (Function& F : *M) // accessors generated for thread-local objects
        if (F.getName().starts_with("_ZTW") && !F.isDeclaration())
        {
            F.removeFnAttr(Attribute::NoInline);
            std::vector<CallBase*> cs;
            for (User* U : F.users()) if (auto* CB = dyn_cast<CallBase>(U)) cs.push_back(CB);
            for (auto* CB : cs) { InlineFunctionInfo IFI; InlineFunction(*CB, IFI); }
        }
    for (Function& F : *M)
    {
        if (F.isDeclaration() || F.getName().starts_with("kfr_")) continue;
        bool touches = false, eh = false;
        for (Instruction& I : instructions(F))
        {
            if (isa<LandingPadInst>(I)) eh = true;
            for (Use& U : I.operands()) if (baseSlot(U.get()->stripPointerCasts()) == Slot && U.get()->getType()->isPointerTy()) touches = true;
        }
        if (touches && !eh)
        {
            F.removeFnAttr(Attribute::AlwaysInline);
            F.addFnAttr(Attribute::NoInline);
            helpers.insert(F.getName().str());
        }
    }
    runPipeline(*M, "default<O2>");
    Slot = M->getNamedGlobal(Slot->getName());
    for (Function& F : *M)
    {
        if (F.isDeclaration()) continue;
        bool isHelper = false;
        for (auto& h : helpers) if (F.getName().starts_with(h)) isHelper = true;
        if (!isHelper) continue;
        Summary s;
        int64_t maxEnd = -1; bool unbounded = false; std::string where; bool zeroTail = false;
        for (Instruction& I : instructions(F))
        {
            Eff e = effectOf(I, DL);
            if (e == Set) s.set = true;
            if (e == Clear) s.clear = true;
            // bound of copied text: must leave room for the terminator
            if (auto* MT = dyn_cast<MemTransferInst>(&I))
                if (baseSlot(MT->getDest()) == Slot)
                {
                    int64_t off = 0;
                    auto* g = slotOf(MT->getDest(), off, DL);
                    ConstantRange R = computeConstantRange(MT->getLength(), false, true, nullptr, &I);
                    uint64_t mx = R.getUnsignedMax().getLimitedValue();
                    if (g != Slot || mx + off > SlotSize - 1) { unbounded = true; where = locOf(&I); }
                }
            if (auto* MS = dyn_cast<MemSetInst>(&I))
                if (baseSlot(MS->getDest()) == Slot) if (auto* K = dyn_cast<Constant>(MS->getValue())) if (K->isNullValue()) zeroTail = true;
            if (auto* S = dyn_cast<StoreInst>(&I))
                if (baseSlot(S->getPointerOperand()) == Slot) if (auto* K = dyn_cast<Constant>(S->getValueOperand())) if (K->isNullValue()) zeroTail = true;
        }
        helper[&F] = s;
        if (s.set || s.clear)
            emit(json::Object{ { "kind", "helper" }, { "fn", dem(&F) }, { "loc", locOf(&F) }, { "sets", s.set }, { "clears", s.clear },
                               { "unterminated", s.set && (unbounded || !zeroTail) }, { "where", where } });
    }
    // 3. path rule on each plan/filter function
    for (Function& F : *M)
    {
        if (F.isDeclaration() || !F.getName().starts_with("kfr_")) continue;
        StringRef n = F.getName();
        if (!(n.starts_with("kfr_dft") || n.starts_with("kfr_dct") || n.starts_with("kfr_filter"))) continue;
        // blocks only reachable through an unwind edge
        std::set<const BasicBlock*> normal; { std::vector<const BasicBlock*> W{ &F.getEntryBlock() };
            while (!W.empty()) { auto* B = W.back(); W.pop_back(); if (!normal.insert(B).second) continue;
                if (auto* I = dyn_cast<InvokeInst>(B->getTerminator())) { W.push_back(I->getNormalDest()); continue; }
                for (auto* S : successors(B)) W.push_back(S); } }
        bool inlineSet = false; unsigned pads = 0, calls = 0;
        for (Instruction& I : instructions(F)) { if (effectOf(I, DL) == Set) inlineSet = true; if (isa<LandingPadInst>(I)) ++pads; if (isa<CallBase>(I)) ++calls; }
        // abstract states: (handler?, slot state, error text kind); may-rule when the text is stored in line
        typedef std::pair<int, int> St; // handler 0/1, slot: 0 unknown 1 clear 2 set
        std::map<const BasicBlock*, std::set<St>> in;
        in[&F.getEntryBlock()] = { { 0, 0 } };
        std::vector<const BasicBlock*> W{ &F.getEntryBlock() };
        std::string emptyMsg;
        struct RetRec { St s; const BasicBlock* from; };
        std::map<const BasicBlock*, std::set<St>> out;
        auto transfer = [&](const BasicBlock* B, std::set<St> S) {
            for (const Instruction& I : *B)
            {
                if (isa<LandingPadInst>(I)) { std::set<St> T; for (auto s : S) T.insert({ 1, 0 }); S = T; }
                Eff e = effectOf(I, DL);
                bool hs = false, hc = false;
                if (auto* CB = dyn_cast<CallBase>(&I))
                    if (auto* G = calledFn(CB))
                    {
                        auto it = helper.find(G);
                        if (it != helper.end()) { hs = it->second.set; hc = it->second.clear && !it->second.set; }
                        if (hs)
                            for (unsigned a = 0; a < CB->arg_size(); ++a)
                                if (auto* K = dyn_cast<ConstantInt>(CB->getArgOperand(a))) if (K->isZero()) emptyMsg = locOf(&I);
                    }
                if (hs || e == Set) { std::set<St> T; for (auto s : S) T.insert({ s.first, 2 }); S = T; }
                else if (hc || e == Clear) { std::set<St> T; for (auto s : S) T.insert({ s.first, (inlineSet && s.first == 1 && s.second == 2) ? 2 : 1 }); S = T; }
            }
            return S;
        };
        while (!W.empty())
        {
            auto* B = W.back(); W.pop_back();
            auto S = transfer(B, in[B]);
            out[B] = S;
            for (auto* T : successors(B))
            {
                size_t before = in[T].size();
                in[T].insert(S.begin(), S.end());
                if (in[T].size() != before || !out.count(T)) W.push_back(T);
            }
        }
        json::Array bad;
        for (BasicBlock& B : F)
        {
            auto* R = dyn_cast<ReturnInst>(B.getTerminator());
            if (!R || !out.count(&B)) continue;
            bool hAny = false, hSet = false;
            for (auto s : out[&B])
            {
                if (s.first == 1) { hAny = true; if (s.second == 2) hSet = true; if (s.second != 2 && !inlineSet) bad.push_back("a failure path returns without storing an error message: " + locOf(R)); }
                if (s.first == 0 && s.second != 1) bad.push_back("a successful path returns without clearing the error message: " + locOf(R));
            }
            if (hAny && inlineSet && !hSet) bad.push_back("no failure path stores an error message: " + locOf(R));
            // returned value per origin
            if (Value* V = R->getReturnValue())
            {
                std::vector<std::pair<const Value*, const BasicBlock*>> alts; std::set<const Value*> seen;
                std::function<void(const Value*, const BasicBlock*)> go = [&](const Value* v, const BasicBlock* from) {
                    if (auto* P = dyn_cast<PHINode>(v)) { if (!seen.insert(v).second) return; for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) go(P->getIncomingValue(i), P->getIncomingBlock(i)); return; }
                    alts.push_back({ v, from });
                };
                go(V, &B);
                for (auto& a : alts)
                {
                    bool fromHandler = !normal.count(a.second);
                    auto* K = dyn_cast<Constant>(a.first);
                    if (fromHandler && !(K && K->isNullValue())) bad.push_back("a failure path returns something other than null/0: " + locOf(a.second->getTerminator()));
                    if (!fromHandler && V->getType()->isPointerTy() && K && K->isNullValue()) bad.push_back("a successful path returns a null handle: " + locOf(a.second->getTerminator()));
                }
            }
        }
        if (!emptyMsg.empty()) bad.push_back("an empty error message is stored: " + emptyMsg);
        emit(json::Object{ { "kind", "fn" }, { "fn", n }, { "loc", locOf(&F) }, { "pads", (int64_t)pads }, { "calls", (int64_t)calls }, { "ret", F.getReturnType()->isVoidTy() ? "void" : F.getReturnType()->isPointerTy() ? "ptr" : "int" }, { "bad", std::move(bad) } });
    }
    return 0;
}

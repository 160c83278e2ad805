// R02: for every feature assumption (a CPUID/XCR0 bit is absent, or a maximum leaf is too small) specialise the CPU
// detection function and list the set of levels it can still return.   cpudet probe.bc ASSUMPTION...
// ASSUMPTION: none | bit:LEAF:REG:N | xcr0:N | max:LEAF:VALUE
#include "common.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/Support/KnownBits.h"

static const char* DET = "kfr::internal_generic::detect_cpu<0ul>()";
static bool hasText(const CallBase* C, const char* t)
{
    if (!C->isInlineAsm()) return false;
    return StringRef(cast<InlineAsm>(C->getCalledOperand())->getAsmString()).contains(t);
}
static std::vector<std::string> outRegs(const CallBase* C)
{
    std::vector<std::string> r;
    for (auto& ci : cast<InlineAsm>(C->getCalledOperand())->ParseConstraints())
        if (ci.Type == InlineAsm::isOutput)
        {
            std::string c = ci.Codes.empty() ? "" : ci.Codes[0];
            r.push_back(c == "{ax}" ? "eax" : c == "{cx}" ? "ecx" : c == "{dx}" ? "edx" : "ebx");
        }
    return r;
}
// Conditional constant propagation over the known-bits lattice (optimistic; merges keep the bits that agree).
struct Facts
{
    std::map<const Value*, KnownBits> kb;
    std::set<std::pair<const BasicBlock*, const BasicBlock*>> edges;
    std::set<const BasicBlock*> blocks;
    bool has(const Value* V) const { return isa<Constant>(V) || isa<Argument>(V) || kb.count(V); }
    KnownBits get(const Value* V) const
    {
        unsigned w = V->getType()->getIntegerBitWidth();
        if (auto* C = dyn_cast<ConstantInt>(V)) return KnownBits::makeConstant(C->getValue());
        auto it = kb.find(V);
        return it == kb.end() ? KnownBits(w) : it->second;
    }
    std::optional<bool> truth(const Value* V) const { auto k = get(V); if (k.isConstant()) return k.getConstant().getBoolValue(); return std::nullopt; }
};
static KnownBits eval(const Instruction& I, const Facts& F, bool& ready)
{
    unsigned w = I.getType()->getIntegerBitWidth();
    auto op = [&](unsigned i) { return F.get(I.getOperand(i)); };
    if (auto* P = dyn_cast<PHINode>(&I))
    {
        KnownBits k(w); bool any = false;
        for (unsigned i = 0; i < P->getNumIncomingValues(); ++i)
        {
            if (!F.edges.count({ P->getIncomingBlock(i), P->getParent() })) continue;
            auto* V = P->getIncomingValue(i);
            if (isa<UndefValue>(V) || !F.has(V)) continue;
            auto x = F.get(V); k = any ? k.intersectWith(x) : x; any = true;
        }
        ready = any; return k;
    }
    for (auto& U : I.operands()) if (U->getType()->isIntegerTy() && !isa<BasicBlock>(U.get()) && !F.has(U.get())) { ready = false; return KnownBits(w); }
    if (auto* S = dyn_cast<SelectInst>(&I))
    {
        if (auto t = F.truth(S->getCondition())) return F.get(*t ? S->getTrueValue() : S->getFalseValue());
        return op(1).intersectWith(op(2));
    }
    if (auto* C = dyn_cast<ICmpInst>(&I))
    {
        if (!C->getOperand(0)->getType()->isIntegerTy()) return KnownBits(w);
        auto a = op(0), b = op(1); std::optional<bool> r;
        switch (C->getPredicate())
        {
        case ICmpInst::ICMP_EQ: r = KnownBits::eq(a, b); break;   case ICmpInst::ICMP_NE: r = KnownBits::ne(a, b); break;
        case ICmpInst::ICMP_UGT: r = KnownBits::ugt(a, b); break; case ICmpInst::ICMP_UGE: r = KnownBits::uge(a, b); break;
        case ICmpInst::ICMP_ULT: r = KnownBits::ult(a, b); break; case ICmpInst::ICMP_ULE: r = KnownBits::ule(a, b); break;
        case ICmpInst::ICMP_SGT: r = KnownBits::sgt(a, b); break; case ICmpInst::ICMP_SGE: r = KnownBits::sge(a, b); break;
        case ICmpInst::ICMP_SLT: r = KnownBits::slt(a, b); break; case ICmpInst::ICMP_SLE: r = KnownBits::sle(a, b); break;
        default: break;
        }
        if (r) return KnownBits::makeConstant(APInt(1, *r));
        return KnownBits(1);
    }
    switch (I.getOpcode())
    {
    case Instruction::And: return op(0) & op(1);
    case Instruction::Or: return op(0) | op(1);
    case Instruction::Xor: return op(0) ^ op(1);
    case Instruction::Shl: return KnownBits::shl(op(0), op(1));
    case Instruction::LShr: return KnownBits::lshr(op(0), op(1));
    case Instruction::AShr: return KnownBits::ashr(op(0), op(1));
    case Instruction::Add: return KnownBits::computeForAddSub(true, false, op(0), op(1));
    case Instruction::Sub: return KnownBits::computeForAddSub(false, false, op(0), op(1));
    case Instruction::Mul: return KnownBits::mul(op(0), op(1));
    case Instruction::ZExt: return I.getOperand(0)->getType()->isIntegerTy() ? op(0).zext(w) : KnownBits(w);
    case Instruction::SExt: return I.getOperand(0)->getType()->isIntegerTy() ? op(0).sext(w) : KnownBits(w);
    case Instruction::Trunc: return op(0).trunc(w);
    case Instruction::Freeze: return op(0);
    default: return KnownBits(w);
    }
}
static void propagate(const Function& Fn, Facts& F)
{
    F.blocks.insert(&Fn.getEntryBlock());
    bool changed = true;
    while (changed)
    {
        changed = false;
        for (auto& B : Fn)
        {
            if (!F.blocks.count(&B)) continue;
            for (auto& I : B)
            {
                if (!I.getType()->isIntegerTy()) continue;
                bool ready = true; auto k = eval(I, F, ready);
                if (!ready) continue;
                auto it = F.kb.find(&I);
                if (it == F.kb.end()) { F.kb.emplace(&I, k); changed = true; }
                else { auto m = it->second.intersectWith(k); if (m.Zero != it->second.Zero || m.One != it->second.One) { it->second = m; changed = true; } }
            }
            auto go = [&](const BasicBlock* S) { if (F.edges.insert({ &B, S }).second) changed = true; if (F.blocks.insert(S).second) changed = true; };
            auto* T = B.getTerminator();
            if (auto* Br = dyn_cast<BranchInst>(T); Br && Br->isConditional())
            {
                if (!F.has(Br->getCondition())) continue;
                auto t = F.truth(Br->getCondition());
                if (!t || *t) go(Br->getSuccessor(0));
                if (!t || !*t) go(Br->getSuccessor(1));
            }
            else if (auto* Sw = dyn_cast<SwitchInst>(T))
            {
                if (!F.has(Sw->getCondition())) continue;
                auto k = F.get(Sw->getCondition());
                bool exact = false;
                for (auto& c : Sw->cases())
                {
                    auto e = KnownBits::eq(k, KnownBits::makeConstant(c.getCaseValue()->getValue()));
                    if (e && *e) exact = true;
                    if (!e || *e) go(c.getCaseSuccessor());
                }
                if (!exact) go(Sw->getDefaultDest());
            }
            else for (auto* S : successors(&B)) go(S);
        }
    }
}
typedef std::set<int64_t> Vals;
static bool possible(const Value* V, const Facts& F, Vals& out, std::set<const Value*> seen)
{
    if (isa<UndefValue>(V)) return true;
    if (!V->getType()->isIntegerTy()) return false;
    if (auto k = F.get(V); k.isConstant()) { out.insert(k.getConstant().getSExtValue()); return true; }
    if (!seen.insert(V).second) return true;
    bool ok = true;
    if (auto* P = dyn_cast<PHINode>(V))
    {
        for (unsigned i = 0; i < P->getNumIncomingValues(); ++i)
            if (F.edges.count({ P->getIncomingBlock(i), P->getParent() })) ok &= possible(P->getIncomingValue(i), F, out, seen);
        return ok;
    }
    if (auto* S = dyn_cast<SelectInst>(V))
    {
        auto t = F.truth(S->getCondition());
        if (!t || *t) ok &= possible(S->getTrueValue(), F, out, seen);
        if (!t || !*t) ok &= possible(S->getFalseValue(), F, out, seen);
        return ok;
    }
    // anything else: the values its unknown bits allow, if few
    auto k = F.get(V); unsigned unk = (~(k.Zero | k.One)).popcount();
    if (unk > 6) return false;
    std::vector<unsigned> bits; for (unsigned i = 0; i < k.getBitWidth(); ++i) if (!k.Zero[i] && !k.One[i]) bits.push_back(i);
    for (unsigned m = 0; m < (1u << unk); ++m) { APInt x = k.One; for (unsigned i = 0; i < unk; ++i) if (m >> i & 1) x.setBit(bits[i]); out.insert(x.getSExtValue()); }
    return true;
}

int main(int argc, char** argv)
{
    LLVMContext C;
    auto M0 = loadModule(C, argv[1]);
    Function* D0 = nullptr; 
    for (Function& F : *M0) if (dem(&F).find(DET) != std::string::npos && !F.isDeclaration()) D0 = &F;
    if (!D0) die("detect_cpu not found");
    D0->removeFnAttr(Attribute::AlwaysInline); D0->removeFnAttr(Attribute::InlineHint);
    D0->addFnAttr(Attribute::NoInline);
    std::string name = D0->getName().str();
    runPipeline(*M0, "default<O1>");
    // how the level variable is written and read
    {
        std::set<const GlobalVariable*> cells;
        Function* probe = M0->getFunction("cpu_current");
        if (!probe) die("probe function missing");
        for (auto& I : instructions(*probe))
            if (auto* R = dyn_cast<ReturnInst>(&I))
            {
                auto* L = dyn_cast<LoadInst>(R->getReturnValue());
                auto* G = L ? dyn_cast<GlobalVariable>(L->getPointerOperand()) : nullptr;
                emit(json::Object{ { "kind", "getter" }, { "cell", G ? dem(G) : "" } });
                if (G) cells.insert(G);
            }
        for (Function& F : *M0)
            for (auto& I : instructions(F))
                if (auto* S = dyn_cast<StoreInst>(&I))
                    if (auto* G = dyn_cast<GlobalVariable>(S->getPointerOperand()); G && cells.count(G))
                    {
                        std::string src = "other";
                        if (auto* CB = dyn_cast<CallBase>(S->getValueOperand())) { auto* T = calledFn(CB); if (T && T->getName() == name) src = "detect"; }
                        if (isa<Argument>(S->getValueOperand())) src = "argument";
                        // does it run at start-up?
                        bool ctor = false;
                        if (auto* GC = M0->getNamedGlobal("llvm.global_ctors"))
                        {
                            std::set<const GlobalValue*> refs; std::set<const Constant*> seen;
                            constRefs(GC->getInitializer(), refs, seen);
                            std::vector<const Function*> roots; for (auto* r : refs) if (auto* f = dyn_cast<Function>(r)) roots.push_back(f);
                            ctor = reachableFunctions(roots).count(&F);
                        }
                        emit(json::Object{ { "kind", "store" }, { "fn", dem(&F) }, { "loc", locOf(&I) }, { "source", src }, { "startup", ctor } });
                    }
    }
    std::string d;
    for (int a = 2; a < argc; ++a)
    {
        std::string as = argv[a];
        std::vector<std::string> p; { std::string t; for (char ch : as + ":") if (ch == ':') { p.push_back(t); t.clear(); } else t += ch; }
        auto M = CloneModule(*M0);
        Function* D = M->getFunction(name);
        int sites = 0, cpuids = 0, unknownLeaf = 0;
        std::vector<CallBase*> calls;
        for (Function& F : *M) for (auto& I : instructions(F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (&F == D || F.getName().contains("cpu")) calls.push_back(CB);
        for (auto* CB : calls)
        {
            if (hasText(CB, "cpuid"))
            {
                ++cpuids;
                auto* leaf = CB->arg_size() ? dyn_cast<ConstantInt>(CB->getArgOperand(0)) : nullptr;
                if (!leaf) { ++unknownLeaf; continue; }
                if (p[0] != "bit" && p[0] != "max") continue;
                if (leaf->getZExtValue() != std::stoull(p[1], nullptr, 0)) continue;
                auto regs = outRegs(CB);
                std::vector<ExtractValueInst*> ex;
                for (auto* U : CB->users()) if (auto* E = dyn_cast<ExtractValueInst>(U)) ex.push_back(E);
                for (auto* E : ex)
                {
                    std::string r = E->getIndices()[0] < regs.size() ? regs[E->getIndices()[0]] : "?";
                    IRBuilder<> B(E->getNextNode());
                    if (p[0] == "bit" && r == p[2])
                    {
                        ++sites;
                        auto* N = cast<Instruction>(B.CreateAnd(E, B.getInt32(~(1u << std::stoi(p[3])))));
                        E->replaceUsesWithIf(N, [&](Use& U) { return U.getUser() != N; });
                    }
                    if (p[0] == "max" && r == "eax") { ++sites; E->replaceAllUsesWith(B.getInt32(std::stoul(p[2], nullptr, 0))); }
                }
            }
            else if (hasText(CB, "xgetbv") && p[0] == "xcr0")
            {
                ++sites;
                auto* V = cast<Instruction>(CB);
                std::vector<Instruction*> tgt;
                if (V->getType()->isIntegerTy()) tgt.push_back(V);
                else for (auto* U : V->users()) if (auto* E = dyn_cast<ExtractValueInst>(U)) if (E->getIndices()[0] == 0) tgt.push_back(E);
                for (auto* T : tgt)
                {
                    IRBuilder<> B(T->getNextNode());
                    auto* N = cast<Instruction>(B.CreateAnd(T, ConstantInt::get(T->getType(), ~(1ull << std::stoi(p[1])))));
                    T->replaceUsesWithIf(N, [&](Use& U) { return U.getUser() != N; });
                }
            }
        }
        Vals vs; bool ok = true;
        Facts F; propagate(*D, F);
        for (auto& B : *D) if (F.blocks.count(&B)) if (auto* R = dyn_cast<ReturnInst>(B.getTerminator())) ok &= possible(R->getReturnValue(), F, vs, {});
        json::Array va; for (auto v : vs) va.push_back(v);
        emit(json::Object{ { "kind", "case" }, { "assume", as }, { "sites", sites }, { "cpuids", cpuids }, { "unknownLeaf", unknownLeaf }, { "resolved", ok }, { "levels", std::move(va) } });
    }
}

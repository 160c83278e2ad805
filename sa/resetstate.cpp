// F02: every piece of state a filter's processing functions change is restored by reset().
//   resetstate bc...
#include "common.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Dominators.h"

static const DataLayout* DLp;
static void base(const Value* V, const Value*& B, int64_t& off)
{
    off = 0;
    while (auto* G = dyn_cast<GEPOperator>(V))
    {
        APInt a(64, 0);
        if (!G->accumulateConstantOffset(*DLp, a)) break;
        off += a.getSExtValue(); V = G->getPointerOperand();
    }
    B = V;
}
// state key: field offset inside the object; content = memory reached through the pointer stored there
struct Key { int64_t f; bool content; bool operator<(const Key& o) const { return std::tie(f, content) < std::tie(o.f, o.content); } bool operator==(const Key& o) const { return f == o.f && content == o.content; } };
static std::string ks(const Key& k) { return (k.content ? "data of member at +" : "member at +") + std::to_string(k.f); }

struct Org { bool self = false; int64_t off = 0; bool known = true; std::set<int64_t> cont; bool full = true; };   // self: address inside the object; cont: pointer derived from these fields

struct FnA
{
    Function& F; const Argument* self; std::map<const Value*, Org> memo; std::set<const Value*> act;
    FnA(Function& f) : F(f), self(nullptr) { for (auto& A : f.args()) if (!A.hasStructRetAttr()) { self = &A; break; } }
    Org org(const Value* V)
    {
        auto it = memo.find(V); if (it != memo.end()) return it->second;
        Org r; r.off = 0;
        if (!V->getType()->isPointerTy()) return r;
        if (V == self) { r.self = true; return memo[V] = r; }
        if (!act.insert(V).second) return r;
        if (auto* G = dyn_cast<GEPOperator>(V))
        {
            APInt a(64, 0); bool c = G->accumulateConstantOffset(*DLp, a);
            r = org(G->getPointerOperand());
            if (r.self) { if (c) r.off += a.getSExtValue(); else r.known = false; }
            if (!c || a != 0) r.full = false;
        }
        else if (auto* L = dyn_cast<LoadInst>(V))
        {
            Org p = org(L->getPointerOperand());
            if (p.self) { r.cont.insert(p.off); }
            else if (!p.cont.empty()) { r.cont = p.cont; }
            r.full = true;
        }
        else if (auto* P = dyn_cast<PHINode>(V)) { for (auto& v : P->incoming_values()) merge(r, org(v)); r.full = false; }
        else if (auto* S = dyn_cast<SelectInst>(V)) { merge(r, org(S->getTrueValue())); merge(r, org(S->getFalseValue())); r.full = false; }
        else if (auto* C = dyn_cast<CastInst>(V)) { if (C->getOperand(0)->getType()->isPointerTy()) r = org(C->getOperand(0)); }
        act.erase(V);
        if (act.empty() || !isa<PHINode>(V)) memo[V] = r;
        return r;
    }
    static void merge(Org& a, const Org& b) { if (b.self) { a.self = true; a.off = b.off; a.known = a.known && b.known; } a.cont.insert(b.cont.begin(), b.cont.end()); }
};

enum Role { RD = 1, WR = 2, WF = 4 };   // read, may write, full overwrite
static bool contract(const std::string& d, unsigned arg, unsigned nargs, int& role, bool& viaRef)
{
    auto h = d.substr(0, d.find('('));
    viaRef = false;
    if (d.find("internal_generic::dft_execute<") != std::string::npos || d.find("::dft_execute(") != std::string::npos)
    {
        // (plan, [tag], out, in, temp)
        unsigned n = nargs; role = RD;
        if (arg == n - 3) role = WF; else if (arg == n - 2) role = RD; else if (arg == n - 1) role = WF; // scratch: contents unspecified
        return true;
    }
    if (h.find("fft_multiply_accumulate") != std::string::npos) { viaRef = true; unsigned ptrs = nargs - 1; role = arg == 0 ? (ptrs >= 4 ? WF : RD | WR) : RD; return true; }
    if (h.find("fft_multiply") != std::string::npos) { viaRef = true; role = arg == 0 ? WF : RD; return true; }
    return false;
}

struct Access { const Instruction* I; Key k; int role; };
static std::vector<Access> accesses(FnA& A, const Instruction& I, std::set<const Function*>* subs)
{
    std::vector<Access> r;
    auto addr = [&](const Value* P, int role, bool fullWidth)
    {
        Org o = A.org(P);
        if (o.self) r.push_back({ &I, { o.known ? o.off : -1, false }, role });
        for (auto f : o.cont) r.push_back({ &I, { f, true }, (role & WF) && !fullWidth ? (role & ~WF) | WR : role });
    };
    if (auto* L = dyn_cast<LoadInst>(&I)) addr(L->getPointerOperand(), RD, true);
    else if (auto* S = dyn_cast<StoreInst>(&I))
    {
        Org o = A.org(S->getPointerOperand());
        if (o.self) r.push_back({ &I, { o.known ? o.off : -1, false }, WF });
        for (auto f : o.cont) r.push_back({ &I, { f, true }, WR });
    }
    else if (auto* X = dyn_cast<AtomicRMWInst>(&I)) addr(X->getPointerOperand(), RD | WR, true);
    else if (auto* CB = dyn_cast<CallBase>(&I))
    {
        auto* G = calledFn(CB);
        if (G && G->isIntrinsic())
        {
            if (auto* MI = dyn_cast<MemIntrinsic>(CB))
            {
                Org d = A.org(MI->getDest());
                if (d.self) r.push_back({ &I, { d.known ? d.off : -1, false }, WF });
                for (auto f : d.cont) r.push_back({ &I, { f, true }, d.full ? WF : WR });
                if (auto* MT = dyn_cast<MemTransferInst>(MI)) addr(MT->getSource(), RD, true);
            }
            return r;
        }
        std::string d = G ? dem(G->getName()) : "";
        StringRef gn = G ? G->getName() : "";
        if (gn == "memcpy" || gn == "memmove" || gn == "memset")
        {
            Org o = A.org(CB->getArgOperand(0));
            for (auto f : o.cont) r.push_back({ &I, { f, true }, o.full ? WF : WR });
            if (gn != "memset") addr(CB->getArgOperand(1), RD, true);
            return r;
        }
        // call through the object's own vtable: another root
        if (!G) if (auto* L = dyn_cast<LoadInst>(CB->getCalledOperand())) { const Value* b; int64_t o; base(L->getPointerOperand(), b, o); if (auto* L2 = dyn_cast<LoadInst>(b)) { const Value* b2; int64_t o2; base(L2->getPointerOperand(), b2, o2); if (b2 == A.self && o2 == 0) return r; } }
        for (unsigned i = 0; i < CB->arg_size(); ++i)
        {
            auto* V = CB->getArgOperand(i);
            if (!V->getType()->isPointerTy()) continue;
            Org o = A.org(V);
            if (!o.self && o.cont.empty()) continue;
            if (o.self && o.known && o.off == 0 && V == A.self && G && (!G->isDeclaration() || d.find("_impl(") != std::string::npos)) { if (subs) subs->insert(G); continue; }
            int role; bool via;
            if (G && contract(d, i, CB->arg_size(), role, via))
            {
                if (via)
                {
                    if (o.self) r.push_back({ &I, { o.off, true }, role });
                    for (auto f : o.cont) r.push_back({ &I, { f, true }, role });
                }
                else { if (o.self) { if (role & (WR | WF)) r.push_back({ &I, { o.off, false }, role }); else r.push_back({ &I, { o.off, false }, RD }); } for (auto f : o.cont) r.push_back({ &I, { f, true }, o.full ? role : (role & WF ? WR : role) }); }
                continue;
            }
            if (G && (gn.starts_with("_ZdlPv") || gn == "free")) continue;
            bool ro = CB->onlyReadsMemory() || CB->onlyReadsMemory(i);
            if (o.self) { r.push_back({ &I, { o.known ? o.off : -1, false }, ro ? RD : RD | WR }); r.push_back({ &I, { o.known ? o.off : -1, true }, ro ? RD : RD | WR }); }
            for (auto f : o.cont) r.push_back({ &I, { f, true }, ro ? RD : RD | WR });
        }
    }
    return r;
}

int main(int argc, char** argv)
{
    LLVMContext C;
    auto M = loadAndLink(C, std::vector<std::string>(argv + 1, argv + argc));
    DLp = &M->getDataLayout();
    struct Cls { std::string name; Function *reset, *pb, *pe; std::vector<Function*> ctors, impl; };
    std::vector<Cls> classes;
    for (auto& G : M->globals())
    {
        if (!G.getName().starts_with("_ZTV") || !G.hasInitializer()) continue;
        std::string d = dem(G.getName());
        if (d.find("vtable for ") != 0) continue;
        d = d.substr(11);
        if (d.find("::impl::") != std::string::npos || d.find("expression_filter<") != std::string::npos) continue;
        auto* S = dyn_cast<ConstantStruct>(G.getInitializer()); if (!S) continue;
        auto* A = dyn_cast<ConstantArray>(S->getOperand(0)); if (!A || A->getNumOperands() != 7) continue;
        Function* f[7] = {}; for (int i = 2; i < 7; ++i) f[i] = dyn_cast<Function>(A->getOperand(i)->stripPointerCasts());
        if (!f[4] || !f[5] || !f[6]) continue;
        auto tail = [](Function* x) { auto n = dem(x->getName()); n = n.substr(0, n.find('(')); auto p = n.rfind("::"); return p == std::string::npos ? n : n.substr(p + 2); };
        if (tail(f[4]) != "reset" || tail(f[5]) != "process_buffer" || tail(f[6]) != "process_expression") continue;
        Cls c; c.name = d; c.reset = f[4]; c.pb = f[5]; c.pe = f[6];
        std::string cls = d.substr(0, d.find('<')); cls = cls.substr(cls.rfind("::") + 2);
        for (auto& F : *M) { if (F.isDeclaration()) continue; auto n = dem(F.getName()); if (n.compare(0, d.size() + 2 + cls.size() + 1, d + "::" + cls + "(") == 0) c.ctors.push_back(&F); }
        classes.push_back(c);
    }
    std::set<Function*> keep;
    for (auto& c : classes) { keep.insert(c.reset); keep.insert(c.pb); keep.insert(c.pe); for (auto* f : c.ctors) keep.insert(f); }
    for (auto& F : *M)
    {
        if (F.isDeclaration()) continue;
        auto d = dem(F.getName());
        if (d.find("process_buffer_impl") != std::string::npos || d.find("process_expression_impl") != std::string::npos) keep.insert(&F);
    }
    // contracts stay opaque; everything else reachable is inlined
    std::vector<const Function*> roots(keep.begin(), keep.end());
    std::set<const Function*> reach; std::vector<const Function*> W(roots.begin(), roots.end());
    auto opaque = [&](const Function& F)
    {
        auto d = dem(F.getName()); int r; bool v;
        return contract(d, 0, 4, r, v) || d.find("_M_release") != std::string::npos || d.find("create_iir_filter") != std::string::npos || d.find("dft_plan") != std::string::npos && d.find("univector") == std::string::npos && d.find("::execute") == std::string::npos || d.find("internal_generic::dft_") != std::string::npos || d.find("::get_cpu") != std::string::npos ||
               d.find("aligned_malloc") != std::string::npos || d.find("aligned_free") != std::string::npos || d.find("aligned_release") != std::string::npos;
    };
    while (!W.empty())
    {
        auto* f = W.back(); W.pop_back();
        if (!reach.insert(f).second) continue;
        if (!keep.count(const_cast<Function*>(f)) && opaque(*f)) continue;
        for (auto& I : instructions(*f)) if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* g = calledFn(CB)) if (!g->isDeclaration()) W.push_back(g);
    }
    for (auto& F : *M)
    {
        if (F.isDeclaration()) continue;
        F.removeFnAttr(Attribute::OptimizeNone);
        if (keep.count(&F)) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); F.setLinkage(GlobalValue::ExternalLinkage); F.setComdat(nullptr); }
        else if (!reach.count(&F) || opaque(F)) { F.deleteBody(); F.setComdat(nullptr); F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); F.setMemoryEffects(MemoryEffects::unknown()); }
        else { F.removeFnAttr(Attribute::NoInline); F.addFnAttr(Attribute::AlwaysInline); F.setLinkage(GlobalValue::InternalLinkage); F.setComdat(nullptr); }
    }
    for (auto& G : M->globals()) if (G.hasComdat()) G.setComdat(nullptr);
    PipelineTuningOptions PTO; PTO.SLPVectorization = false; PTO.LoopVectorization = false; PTO.LoopUnrolling = false; PTO.LoopInterleaving = false;
    PassBuilder PB(nullptr, PTO);
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    {
        ModulePassManager MPM; MPM.addPass(AlwaysInlinerPass());
        MPM.addPass(PB.buildModuleSimplificationPipeline(OptimizationLevel::O2, ThinOrFullLTOPhase::None));
        MPM.run(*M, MAM);
    }
    for (auto& c : classes)
    {
        json::Object o; o["kind"] = "class"; o["class"] = c.name; o["loc"] = locOf(c.reset); o["reset"] = dem(c.reset->getName());
        std::vector<std::string> bad; json::Array stateA, scratchA, R;
        // ------------------------------------------------ restored keys
        std::set<Key> writtenByReset; std::map<Key, const ConstantInt*> resetConst;
        FnA RA(*c.reset);
        std::set<const Function*> rsub;
        // must-write dataflow for direct members
        std::map<const BasicBlock*, std::set<Key>> in; std::set<const BasicBlock*> seen; std::set<Key> mustAtExit; bool firstExit = true;
        {
            in[&c.reset->getEntryBlock()]; seen.insert(&c.reset->getEntryBlock());
            bool ch = true;
            while (ch)
            {
                ch = false; firstExit = true; mustAtExit.clear();
                for (auto& B : *c.reset)
                {
                    if (!seen.count(&B)) continue;
                    auto s = in[&B];
                    for (auto& I : B) { for (auto& a : accesses(RA, I, &rsub)) { if (a.role & (WR | WF)) writtenByReset.insert(a.k); if (!a.k.content && (a.role & WF)) s.insert(a.k); } }
                    if (isa<ReturnInst>(B.getTerminator())) { if (firstExit) { mustAtExit = s; firstExit = false; } else { std::set<Key> m; std::set_intersection(s.begin(), s.end(), mustAtExit.begin(), mustAtExit.end(), std::inserter(m, m.end())); mustAtExit = m; } }
                    for (auto* S : successors(&B)) if (seen.insert(S).second) { in[S] = s; ch = true; } else { std::set<Key> m; std::set_intersection(s.begin(), s.end(), in[S].begin(), in[S].end(), std::inserter(m, m.end())); if (m != in[S]) { in[S] = m; ch = true; } }
                }
            }
        }
        std::map<Key, const Constant*> rc; std::set<Key> rcBad;
        for (auto& I : instructions(*c.reset)) if (auto* S = dyn_cast<StoreInst>(&I)) { Org g = RA.org(S->getPointerOperand()); if (g.self && g.known) { auto* K = dyn_cast<Constant>(S->getValueOperand()); Key k{ g.off, false }; if (!K || rc.count(k) && rc[k] != K) rcBad.insert(k); else rc[k] = K; } }
        // ------------------------------------------------ processing functions
        std::set<const Function*> procs{ c.pb, c.pe }; std::vector<const Function*> pw{ c.pb, c.pe };
        std::map<Key, std::string> changed; std::map<Key, std::string> uninit; unsigned nacc = 0;
        struct PA { std::unique_ptr<FnA> A; std::map<const BasicBlock*, std::vector<Access>> acc; };
        std::map<const Function*, PA> pas;
        auto strip = [](std::string n) { for (const char* a : { "::sse2::", "::sse3::", "::ssse3::", "::sse41::", "::sse42::", "::avx::", "::avx2::", "::avx512::" }) { auto p = n.find(a); if (p != std::string::npos) n.replace(p, strlen(a), "::"); } return n; };
        while (!pw.empty())
        {
            auto* PF = const_cast<Function*>(pw.back()); pw.pop_back();
            if (PF->isDeclaration())
            {
                // the same code built for another architecture is analysed where it is defined
                auto me = strip(dem(PF->getName())); bool sib = false;
                for (auto* k : keep) if (!k->isDeclaration() && k != PF && strip(dem(k->getName())) == me) sib = true;
                if (!sib) bad.push_back("cannot see " + dem(PF->getName()));
                continue;
            }
            auto& P = pas[PF]; P.A.reset(new FnA(*PF));
            std::set<const Function*> subs;
            for (auto& B : *PF) for (auto& I : B) for (auto& a : accesses(*P.A, I, &subs)) { P.acc[&B].push_back(a); ++nacc; if (a.role & (WR | WF)) changed.emplace(a.k, locOf(&I)); }
            for (auto* s : subs) if (procs.insert(s).second) pw.push_back(s);
        }
        {
            // Which state is read before it is rewritten, over every sequence of calls after reset.
            struct St { std::set<Key> init; std::set<int64_t> mod; std::map<std::string, bool> dec; bool operator<(const St& o) const { return std::tie(init, mod, dec) < std::tie(o.init, o.mod, o.dec); } };
            // conditions over members processing never changes are decided once
            std::function<std::string(FnA&, const Value*, int)> inv = [&](FnA& A, const Value* V, int d) -> std::string
            {
                if (d > 10) return "";
                if (auto* K = dyn_cast<ConstantInt>(V)) return std::to_string(K->getSExtValue());
                if (isa<ConstantPointerNull>(V)) return "null";
                if (auto* L = dyn_cast<LoadInst>(V)) { Org g = A.org(L->getPointerOperand()); if (g.self && g.known && !changed.count({ g.off, false })) return "m" + std::to_string(g.off); return ""; }
                if (auto* I = dyn_cast<Instruction>(V)) if (isa<ICmpInst>(I) || isa<BinaryOperator>(I) || isa<CastInst>(I))
                {
                    std::string r = std::string("(") + I->getOpcodeName(); if (auto* IC = dyn_cast<ICmpInst>(I)) r += std::to_string(IC->getPredicate());
                    for (auto& o : I->operands()) { auto x = inv(A, o, d + 1); if (x.empty()) return ""; r += " " + x; }
                    return r + ")";
                }
                return "";
            };
            std::set<St> entry; std::vector<St> ew{ St{} }; unsigned steps = 0;
            std::map<const BasicBlock*, std::set<St>> seenS;
            while (!ew.empty() && steps <= 200000)
            {
                auto e = ew.back(); ew.pop_back();
                if (!entry.insert(e).second) continue;
                for (auto& [PF, P] : pas)
                {
                    std::vector<std::pair<const BasicBlock*, St>> q{ { &PF->getEntryBlock(), e } };
                    while (!q.empty())
                    {
                        auto [B, s] = q.back(); q.pop_back();
                        if (!seenS[B].insert(s).second) continue;
                        if (++steps > 200000) { bad.push_back("state exploration limit in " + dem(PF->getName())); break; }
                        for (auto& a : P.acc[B])
                        {
                            if ((a.role & RD) && !s.init.count(a.k)) uninit.emplace(a.k, locOf(a.I));
                            if (a.k.content ? (a.role & WF) : (a.role & (WF | WR))) s.init.insert(a.k);
                            if (!a.k.content && (a.role & (WF | WR))) s.mod.insert(a.k.f);
                        }
                        auto* T = B->getTerminator();
                        if (isa<ReturnInst>(T)) { ew.push_back(s); continue; }
                        if (auto* BI = dyn_cast<BranchInst>(T); BI && BI->isConditional())
                        {
                            if (auto* IC = dyn_cast<ICmpInst>(BI->getCondition()); IC && IC->isEquality())
                                if (auto* K = dyn_cast<Constant>(IC->getOperand(1)))
                                    if (auto* L = dyn_cast<LoadInst>(IC->getOperand(0)))
                                    {
                                        Org g = P.A->org(L->getPointerOperand()); Key k{ g.off, false };
                                        if (g.self && g.known && mustAtExit.count(k) && rc.count(k) && !rcBad.count(k) && !s.mod.count(k.f) && rc[k]->getType() == K->getType())
                                        {
                                            bool eq = rc[k] == K; bool t = (IC->getPredicate() == ICmpInst::ICMP_EQ) == eq;
                                            q.push_back({ BI->getSuccessor(t ? 0 : 1), s });
                                            continue;
                                        }
                                    }
                            auto key = inv(*P.A, BI->getCondition(), 0);
                            if (!key.empty())
                            {
                                for (int v = 0; v < 2; ++v) { auto it = s.dec.find(key); if (it != s.dec.end() && it->second != !!v) continue; auto n = s; n.dec[key] = v; q.push_back({ BI->getSuccessor(v ? 0 : 1), n }); }
                                continue;
                            }
                        }
                        for (auto* S : successors(B)) q.push_back({ S, s });
                    }
                }
            }
        }
        // ------------------------------------------------ reset judged per key
        // zero fills: every store reaching the data writes zero, each loop's stores tile its stride, the first
        // position is the beginning, the last bound is the end, and no iteration is skipped on the data's own values
        auto& SE = FAM.getResult<ScalarEvolutionAnalysis>(*c.reset); auto& DT = FAM.getResult<DominatorTreeAnalysis>(*c.reset); auto& LI = FAM.getResult<LoopAnalysis>(*c.reset);
        auto zeroFill = [&](int64_t f, std::string& why) -> bool
        {
            bool any = false, bound = false;
            std::set<const Value*> web; std::vector<const Value*> q; std::set<uint64_t> widths;
            auto fieldLoad = [&](const Value* V, bool* end) -> bool
            {
                auto* L = dyn_cast<LoadInst>(V); if (!L) return false;
                Org p = RA.org(L->getPointerOperand());
                if (p.self) { if (end) *end |= p.off == f + 8; return p.off == f || p.off == f + 8; }
                if (!p.cont.count(f) || !L->getType()->isPointerTy()) return false;
                const Value* b; int64_t o; base(L->getPointerOperand(), b, o); if (end) *end |= o == 8;
                return true;
            };
            // a value made of the container's own bounds: sizes, ends, whole-vector-aligned sizes
            int64_t addSum = 0;
            std::function<bool(const Value*, bool*, bool*, int)> size = [&](const Value* X, bool* end, bool* masked, int d) -> bool
            {
                if (d > 12) return false;
                if (auto* K = dyn_cast<ConstantInt>(X)) { (void)K; return true; }
                if (auto* B = dyn_cast<BinaryOperator>(X))
                {
                    auto op = B->getOpcode(); auto* k = dyn_cast<ConstantInt>(B->getOperand(1));
                    if (op == Instruction::And && k) { if (masked && (~k->getSExtValue()) > 0) { uint64_t es = widths.empty() ? 1 : *widths.rbegin(); (void)es; *masked = true; } return size(B->getOperand(0), end, masked, d + 1); }
                    if (op == Instruction::Add && k) { addSum += k->getSExtValue(); return size(B->getOperand(0), end, masked, d + 1); }
                    if (op == Instruction::Sub) return !k && size(B->getOperand(0), end, masked, d + 1) && size(B->getOperand(1), nullptr, masked, d + 1);
                    if (op == Instruction::LShr || op == Instruction::AShr || op == Instruction::Shl || op == Instruction::SDiv || op == Instruction::UDiv || op == Instruction::Mul) return k && size(B->getOperand(0), end, masked, d + 1);
                    return false;
                }
                if (auto* II = dyn_cast<IntrinsicInst>(X)) if (II->getIntrinsicID() == Intrinsic::umax || II->getIntrinsicID() == Intrinsic::smax) return size(II->getOperand(0), end, masked, d + 1) && isa<ConstantInt>(II->getOperand(1)) && cast<ConstantInt>(II->getOperand(1))->getZExtValue() <= 1;
                if (auto* Z = dyn_cast<CastInst>(X)) return size(Z->getOperand(0), end, masked, d + 1);
                return fieldLoad(X, end);
            };
            // the shift applied to a size must not exceed the element size (no partial fill)
            std::function<bool(const Value*, uint64_t, int)> fullSize = [&](const Value* X, uint64_t unit, int d) -> bool
            {
                // X * unit bytes must be the whole extent: track log2 scale
                std::function<bool(const Value*, int64_t&, int)> scale = [&](const Value* Y, int64_t& sc, int dd) -> bool
                {
                    if (dd > 12) return false;
                    if (auto* B = dyn_cast<BinaryOperator>(Y))
                    {
                        auto* k = dyn_cast<ConstantInt>(B->getOperand(1)); auto op = B->getOpcode();
                        if (op == Instruction::Sub) { sc = 0; return true; }
                        if (op == Instruction::Add) return scale(B->getOperand(0), sc, dd + 1);
                        if (!k) return false;
                        if (!scale(B->getOperand(0), sc, dd + 1)) return false;
                        if (op == Instruction::LShr || op == Instruction::AShr) sc -= k->getZExtValue();
                        else if (op == Instruction::Shl) sc += k->getZExtValue();
                        else if (op == Instruction::And) return true;
                        else if (op == Instruction::SDiv || op == Instruction::UDiv) { if (!k->getValue().isPowerOf2()) return true; sc -= k->getValue().logBase2(); }
                        else if (op == Instruction::Mul) { if (!k->getValue().isPowerOf2()) return true; sc += k->getValue().logBase2(); }
                        return true;
                    }
                    if (auto* II = dyn_cast<IntrinsicInst>(Y)) return scale(II->getOperand(0), sc, dd + 1);
                    if (auto* Z = dyn_cast<CastInst>(Y)) return scale(Z->getOperand(0), sc, dd + 1);
                    sc = 0; return true;
                };
                int64_t sc = 0; if (!scale(X, sc, d)) return false;
                if (!unit) return true;
                return sc + (int64_t)Log2_64(unit) >= 0;
            };
            std::map<const Loop*, std::map<int64_t, uint64_t>> tiles; std::map<const Loop*, int64_t> strides;
            auto pushAddr = [&](const Value* P)
            {
                while (auto* G = dyn_cast<GEPOperator>(P)) { for (auto it = G->idx_begin(); it != G->idx_end(); ++it) if (!isa<ConstantInt>(*it)) q.push_back(*it); P = G->getPointerOperand(); }
                q.push_back(P);
            };
            for (auto& I : instructions(*c.reset))
            {
                if (auto* S = dyn_cast<StoreInst>(&I))
                {
                    Org g = RA.org(S->getPointerOperand()); if (!g.cont.count(f)) continue;
                    if (g.cont.size() != 1) { why = "ambiguous store"; return false; }
                    auto* K = dyn_cast<Constant>(S->getValueOperand());
                    if (!K || !K->isNullValue()) { why = "stores a value other than zero at " + locOf(S); return false; }
                    any = true;
                    uint64_t w = DLp->getTypeStoreSize(S->getValueOperand()->getType()); widths.insert(w);
                    auto* L = LI.getLoopFor(S->getParent());
                    if (!L) { why = "fills only single elements at " + locOf(S); return false; }
                    if (auto* lt = L->getLoopLatch(); lt && !DT.dominates(S->getParent(), lt)) { why = "skips elements at " + locOf(S); return false; }
                    if (auto* AR = dyn_cast<SCEVAddRecExpr>(SE.getSCEV(S->getPointerOperand())); AR && AR->getLoop() == L)
                        if (auto* st = dyn_cast<SCEVConstant>(AR->getStepRecurrence(SE)))
                        {
                            strides[L] = st->getAPInt().getSExtValue();
                            const Value* b; int64_t o; base(S->getPointerOperand(), b, o);
                            tiles[L][o] = std::max(tiles[L][o], w);
                        }
                    pushAddr(S->getPointerOperand());
                }
                else if (auto* MS = dyn_cast<MemSetInst>(&I))
                {
                    Org g = RA.org(MS->getDest()); if (!g.cont.count(f)) continue;
                    auto* K = dyn_cast<ConstantInt>(MS->getValue()); if (!K || !K->isZero()) { why = "memset with a value other than zero"; return false; }
                    if (auto* KL = dyn_cast<ConstantInt>(MS->getLength()); KL && LI.getLoopFor(MS->getParent()))
                    {
                        auto* L = LI.getLoopFor(MS->getParent()); widths.insert(KL->getZExtValue());
                        if (auto* lt = L->getLoopLatch(); lt && !DT.dominates(MS->getParent(), lt)) { why = "skips elements at " + locOf(MS); return false; }
                        if (auto* AR = dyn_cast<SCEVAddRecExpr>(SE.getSCEV(MS->getDest())); AR && AR->getLoop() == L)
                            if (auto* st = dyn_cast<SCEVConstant>(AR->getStepRecurrence(SE))) { strides[L] = st->getAPInt().getSExtValue(); const Value* b; int64_t o; base(MS->getDest(), b, o); tiles[L][o] = KL->getZExtValue(); }
                        any = true; pushAddr(MS->getDest());
                        continue;
                    }
                    if (!g.full) { why = "fill does not start at the beginning at " + locOf(MS); return false; }
                    bool e = false, m = false; addSum = 0;
                    if (!size(MS->getLength(), &e, &m, 0) || !e || addSum != 0 || !fullSize(MS->getLength(), 1, 0)) { why = "fill length is not the container's size at " + locOf(MS); return false; }
                    any = true; bound = true;
                    pushAddr(MS->getDest());
                }
            }
            if (!any) { why = "is not restored"; return false; }
            for (auto& [L, t] : tiles) { uint64_t sum = 0; for (auto& [o, w] : t) sum += w; if ((int64_t)sum < std::abs(strides[L])) { why = "skips elements: " + std::to_string(sum) + " bytes of every " + std::to_string(strides[L]) + " are cleared"; return false; } }
            while (!q.empty())
            {
                auto* V = q.back(); q.pop_back();
                if (!web.insert(V).second) continue;
                if (auto* P = dyn_cast<PHINode>(V))
                {
                    for (unsigned i = 0; i < P->getNumIncomingValues(); ++i)
                    {
                        const Value* X = P->getIncomingValue(i);
                        bool back = DT.dominates(P->getParent(), P->getIncomingBlock(i));
                        if (!back)
                        {
                            if (auto* G = dyn_cast<GEPOperator>(X)) { const Value* b; int64_t o; base(X, b, o); if (o != 0 && !web.count(b) && !isa<PHINode>(b)) { why = "does not start filling at the beginning (" + locOf(P) + ")"; return false; } }
                            if (auto* B = dyn_cast<BinaryOperator>(X)) if ((B->getOpcode() == Instruction::Add || B->getOpcode() == Instruction::Or) && !isa<PHINode>(B->getOperand(0))) { why = "does not start filling at the beginning (" + locOf(P) + ")"; return false; }
                        }
                        q.push_back(X);
                    }
                    continue;
                }
                if (auto* B = dyn_cast<BinaryOperator>(V)) if (B->getOpcode() == Instruction::Add || B->getOpcode() == Instruction::Or) if (isa<ConstantInt>(B->getOperand(1))) { q.push_back(B->getOperand(0)); continue; }
                if (auto* G = dyn_cast<GEPOperator>(V)) { for (auto it = G->idx_begin(); it != G->idx_end(); ++it) if (!isa<ConstantInt>(*it)) q.push_back(*it); q.push_back(G->getPointerOperand()); continue; }
                if (V == RA.self) continue;
                if (auto* K = dyn_cast<ConstantInt>(V)) { if (K->isZero()) continue; why = "does not start filling at the beginning (" + locOf(c.reset) + ")"; return false; }
                if (fieldLoad(V, nullptr)) { if (auto* L = cast<LoadInst>(V); !RA.org(L->getPointerOperand()).self) pushAddr(L->getPointerOperand()); continue; }
                if (!isa<LoadInst>(V) && size(V, nullptr, nullptr, 0)) continue;
                why = "does not start filling at the beginning (" + locOf(c.reset) + ")"; return false;
            }
            // exit bound: a web value compared with the size or the end pointer
            for (auto& I : instructions(*c.reset)) if (auto* IC = dyn_cast<ICmpInst>(&I))
            {
                const Value *x = IC->getOperand(0), *y = IC->getOperand(1);
                auto inWeb = [&](const Value* v) { return web.count(v) && !isa<LoadInst>(v); };
                if (!inWeb(x)) std::swap(x, y);
                if (!inWeb(x) || isa<Constant>(y)) continue;
                bool e = false, m = false;
                uint64_t unit = 0; if (!y->getType()->isPointerTy() && !widths.empty()) { uint64_t tot = 0; for (auto& [L, t] : tiles) { uint64_t sum = 0; for (auto& [o2, w] : t) sum += w; tot = std::max(tot, sum); } unit = tot; }
                if ((addSum = 0, size(y, &e, &m, 0)) && addSum == 0 && e && !m && fullSize(y, unit, 0)) bound = true;
            }
            if (!bound) { why = "is not filled up to its end"; return false; }
            return true;
        };
        auto fresh = [&](int64_t f) -> bool
        {
            if (!mustAtExit.count({ f, false })) return false;
            for (auto& I : instructions(*c.reset)) if (auto* S = dyn_cast<StoreInst>(&I)) { Org g = RA.org(S->getPointerOperand()); if (g.self && g.known && g.off == f) { Org v = RA.org(S->getValueOperand()); if (v.self || !v.cont.empty()) return false; } }
            return true;
        };
        // ------------------------------------------------ constructors agree with reset
        bool ctorReset = !c.ctors.empty();
        auto callsReset = [&](const Function* F) { std::set<const Function*> vis; std::function<bool(const Function*)> go = [&](const Function* X) { if (!vis.insert(X).second) return false; for (auto& I : instructions(*X)) if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* G = calledFn(CB)) { if (G == c.reset) return true; if (keep.count(const_cast<Function*>(G)) && go(G)) return true; if (!G->isDeclaration() && dem(G->getName()).find(c.name) == 0 && go(G)) return true; } return false; }; return go(F); };
        std::set<std::string> resetCallees; for (auto& I : instructions(*c.reset)) if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* G = calledFn(CB)) resetCallees.insert(G->getName().str());
        json::Array CT;
        for (auto& [k, where] : changed)
        {
            if (k.f == -1) { bad.push_back("processing writes the object at an unknown place (" + where + ")"); continue; }
            auto u = uninit.find(k);
            if (u == uninit.end()) { scratchA.push_back(ks(k)); continue; }
            stateA.push_back(ks(k));
            std::string desc = ks(k) + " is changed by processing (" + where + "), is read before being rewritten (" + u->second + ")";
            if (!k.content)
            {
                if (!mustAtExit.count(k)) { bad.push_back(desc + " and is not restored by " + dem(c.reset->getName()) + " on every path"); continue; }
                if (rcBad.count(k)) { if (!fresh(k.f)) bad.push_back(desc + " and is not restored to a fixed value"); continue; }
                // constructors
                for (auto* F : c.ctors)
                {
                    if (callsReset(F)) continue;
                    FnA CA(*F); bool ok = false; std::string got = "nothing";
                    for (auto& I : instructions(*F))
                        if (auto* S = dyn_cast<StoreInst>(&I)) { Org g = CA.org(S->getPointerOperand()); if (g.self && g.known && g.off == k.f) { if (S->getValueOperand() == rc[k]) ok = true; else { got = "another value"; if (isa<LoadInst>(S->getValueOperand())) ok = true; } } }
                        else if (auto* MI = dyn_cast<MemIntrinsic>(&I)) { Org g = CA.org(MI->getDest()); if (g.self) ok = true; }
                    if (!ok) bad.push_back(ks(k) + ": constructor " + dem(F->getName()) + " initialises it to " + got + ", unlike reset");
                }
            }
            else
            {
                std::string why;
                if (fresh(k.f)) 
                {
                    // replaced by a newly created object: the ingredients must not be changed by processing
                    for (auto& I : instructions(*c.reset)) if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* G = calledFn(CB)) if (CB->arg_size() && CB->paramHasAttr(0, Attribute::StructRet))
                        for (unsigned i = 1; i < CB->arg_size(); ++i) { Org g = CB->getArgOperand(i)->getType()->isPointerTy() ? RA.org(CB->getArgOperand(i)) : Org(); if (g.self) for (auto& [k2, w2] : changed) if (k2.f >= g.off && k2.f < g.off + 24) bad.push_back("reset rebuilds " + ks(k) + " from a member that processing changes (" + w2 + ")"); }
                    bool ok = true;
                    for (auto* F : c.ctors) { bool same = callsReset(F); for (auto& I : instructions(*F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* G = calledFn(CB)) if (CB->arg_size() && CB->paramHasAttr(0, Attribute::StructRet) && resetCallees.count(G->getName().str())) same = true; for (auto& I : instructions(*F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* G = calledFn(CB)) for (auto* H : c.ctors) if (G == H) same = true; if (!same) { bad.push_back("constructor " + dem(F->getName()) + " does not build " + ks(k) + " as reset does"); } }
                    (void)ok; continue;
                }
                if (!zeroFill(k.f, why)) bad.push_back(desc + " and reset " + (why == "is not restored" ? "does not restore it" : why));
            }
        }
        // conditions inside reset
        if (!bad.size())
            for (auto& B : *c.reset)
            {
                const Value* cond = nullptr;
                if (auto* BI = dyn_cast<BranchInst>(B.getTerminator())) { if (BI->isConditional()) cond = BI->getCondition(); }
                if (!cond) continue;
                std::set<const Value*> vis; std::vector<const Value*> q{ cond }; bool ok = true; std::string which;
                while (!q.empty())
                {
                    auto* V = q.back(); q.pop_back();
                    if (!vis.insert(V).second || isa<Constant>(V)) continue;
                    if (auto* L = dyn_cast<LoadInst>(V))
                    {
                        Org p = RA.org(L->getPointerOperand());
                        if (p.self) { bool vecPart = false; for (auto& [k, w] : changed) if (k.content && (p.off == k.f || p.off == k.f + 8)) vecPart = true; if (!fresh(p.off) && (!vecPart || changed.count({ p.off, false }))) { ok = false; which = locOf(L); } }
                        if (!p.self && !p.cont.empty() && !L->getType()->isPointerTy()) for (auto f : p.cont) if (changed.count({ f, true })) { ok = false; which = locOf(L); }
                        continue;
                    }
                    if (isa<CallBase>(V) || isa<Argument>(V)) continue;
                    if (auto* U = dyn_cast<User>(V)) for (auto& x : U->operands()) if (!isa<BasicBlock>(x)) q.push_back(x);
                }
                if (!ok) bad.push_back("reset depends on a condition on the object's members at " + which);
            }
        if (c.ctors.empty()) CT.push_back("none"); else for (auto* F : c.ctors) CT.push_back(dem(F->getName()));
        for (auto* p : procs) R.push_back(dem(p->getName()));
        o["ctors"] = std::move(CT); o["procs"] = std::move(R); o["state"] = std::move(stateA); o["scratch"] = std::move(scratchA); o["accesses"] = nacc; o["bad"] = json::Array(bad);
        emit(std::move(o));
    }
    return 0;
}

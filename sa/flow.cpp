// flow bc  : compares every probe function pr_<mode>_<id> with its definition sp_<mode>_<id>.
//   mode letters: X exact terms; L / P real-arithmetic normal forms; M minima and maxima as sets (ordered operands); lower-case flags after it: u = bytes the definition leaves
//   unwritten are free, s = stores through computed addresses form a set, n = wide accesses assume no more alignment than the
//   definition's, m = memory read must be within what the definition reads
#include "flow.h"
#include "flowexec.h"
using namespace flow;

int main(int argc, char** argv)
{
    LLVMContext LC;
    auto M = loadModule(LC, argv[1]);
    std::map<std::string, Function*> pr, sp;
    for (auto& F : *M) { if (F.isDeclaration()) continue; if (F.getName().starts_with("pr_")) pr[F.getName().substr(3).str()] = &F; if (F.getName().starts_with("sp_")) sp[F.getName().substr(3).str()] = &F; }
    for (auto& [id, F] : pr)
    {
        json::Object o; o["id"] = id;
        auto it = sp.find(id); if (it == sp.end()) { o["status"] = "nospec"; emit(std::move(o)); continue; }
        std::string m = id.substr(0, id.find('_'));
        Ctx C; C.mode = m[0]; bool uFlag = m.find('u') != std::string::npos, mFlag = m.find('m') != std::string::npos;
        double tol = m.find('f') != std::string::npos ? 2e-6 : m.find('h') != std::string::npos ? 1e-3 : 1e-12;
        Exec A(C, *M), B(C, *M);
        std::string ua = A.run(*F), ub = ua.empty() ? B.run(*it->second) : "";
        if (ua.empty() && !C.fail.empty()) ua = C.fail;
        o["terms"] = (int64_t)C.n.size();
        if (!ua.empty()) { o["status"] = "unresolved"; o["why"] = ua; emit(std::move(o)); continue; }
        if (!ub.empty()) { o["status"] = "unresolved"; o["why"] = "definition: " + ub; emit(std::move(o)); continue; }
        std::string bad; unsigned cmp = 0; bool opaque = false;
        // bytes written through the arguments
        std::map<std::string, std::set<int64_t>> keys;
        for (auto& [k, b] : B.mem) if (k.first[0] != '%') keys[k.first].insert(k.second);
        for (auto& [k, b] : A.mem) if (k.first[0] != '%') keys[k.first].insert(k.second);
        for (auto& [base, offs] : keys)
        {
            if (!bad.empty()) break;
            for (auto itb = offs.begin(); itb != offs.end();)
            {
                int64_t off = *itb; auto a = A.mem.find({ base, off }), b = B.mem.find({ base, off });
                if (b == B.mem.end())
                {
                    ++itb;
                    if (uFlag) continue;
                    Id v = A.byteAt(base, off);
                    if (C.isOp(v, "undef") || C.isOp(v, "ext") && C.isOp(C.n[v].a[0], "undef")) continue;
                    if (C.isOp(v, "in") && C.n[v].p == base + ":" + std::to_string(off) && C.n[v].a.empty()) continue;
                    bad = "writes byte " + std::to_string(off) + " of " + base + ", which the definition leaves alone"; opaque |= A.hasOpaque(v); break;
                }
                // whole element as the definition stored it
                unsigned k = b->second.idx == 0 ? C.w(b->second.node) / 8 : 1; 
                unsigned bytes = std::max(1u, k);
                for (unsigned j = 1; j < bytes; ++j) { auto q = B.mem.find({ base, off + j }); if (q == B.mem.end() || q->second.node != b->second.node || q->second.idx != (int)j) { bytes = 1; break; } }
                Id vb = bytes > 1 || k == 1 && b->second.idx == 0 ? b->second.node : B.byteAt(base, off);
                Id va = A.load(base, off, bytes * 8);
                ++cmp;
                if (!C.isOp(vb, "undef") && !(va == vb || C.same(va, vb, tol)))
                {
                    bad = "element at byte " + std::to_string(off) + " of " + base + " is " + C.str(va) + " instead of " + C.str(vb);
                    opaque |= A.hasOpaque(va) && !B.hasOpaque(vb); break;
                }
                while (itb != offs.end() && *itb < off + (int64_t)bytes) ++itb;
            }
        }
        if (bad.empty() && A.ret.size() != B.ret.size()) bad = "different results";
        for (size_t i = 0; bad.empty() && i < A.ret.size(); ++i) { ++cmp; if (!(A.ret[i] == B.ret[i] || C.same(A.ret[i], B.ret[i], tol))) { bad = "result is " + C.str(A.ret[i]) + " instead of " + C.str(B.ret[i]); opaque |= A.hasOpaque(A.ret[i]) && !B.hasOpaque(B.ret[i]); } }
        if (bad.empty() && m.find('n') != std::string::npos)
            for (auto& [b, al] : A.wideAlign) { uint64_t ok = std::max<uint64_t>(8, std::max(B.smallAlign[b], B.wideAlign[b])); ++cmp; if (al > ok && bad.empty()) bad = "accesses " + b + " as if it were aligned to " + std::to_string(al) + " bytes; only " + std::to_string(ok) + " are given"; }
        if (bad.empty() && m.find('s') != std::string::npos)
        {
            // stores through computed addresses as a set of bytes
            bool plain = true; auto bytes = [&](Exec& E) { std::map<std::tuple<std::string, Id, Id, int64_t>, Id> r; for (auto& e : E.eff) { if (e.size() != 4 || !C.isOp(e[0], "store")) { plain = false; continue; } Id a = e[2]; int64_t off = 0; E.splitConst(a, off); Id v = e[3]; if (C.w(v) % 8) v = C.zext(v, (C.w(v) + 7) / 8 * 8); for (unsigned j = 0; j < C.w(v) / 8; ++j) r[{ C.n[e[0]].p, e[1], a, off + j }] = C.ext(v, 8 * j, 8); } return r; };
            auto ea = bytes(A), eb = bytes(B);
            if (plain)
            {
                auto nm = [&](auto& k) { return "byte " + std::to_string(std::get<3>(k)) + " past " + C.str(std::get<2>(k)) + " of " + std::get<0>(k); };
                for (auto& [k, v] : eb) { ++cmp; if (!bad.empty()) break; auto q = ea.find(k); if (q == ea.end()) bad = "does not write " + nm(k); else if (q->second != v) bad = nm(k) + " becomes " + C.str(q->second) + " instead of " + C.str(v); }
                for (auto& [k, v] : ea) if (bad.empty() && !eb.count(k)) bad = "writes " + nm(k) + ", which is not one of the requested elements";
                A.eff.clear(); B.eff.clear();
            }
        }
        if (bad.empty())
        {
            // effects through computed addresses and opaque calls, in order
            for (size_t i = 0; i < std::max(A.eff.size(), B.eff.size()) && bad.empty(); ++i)
            {
                if (i >= A.eff.size()) bad = "misses the effect " + B.effStr(i);
                else if (i >= B.eff.size()) bad = "has the additional effect " + A.effStr(i);
                else if (A.eff[i] != B.eff[i])
                {
                    auto &x = A.eff[i], &y = B.eff[i]; bool same = x.size() == y.size() && x[0] == y[0];
                    for (size_t j = 0; same && j < x.size(); ++j) same = x[j] == y[j] || C.same(x[j], y[j], tol);
                    if (!same) bad = "effect " + A.effStr(i) + " instead of " + B.effStr(i);
                }
                ++cmp;
            }
        }
        if (bad.empty() && mFlag)
        {
            for (auto& k : A.rd) if (!B.rd.count(k)) { bad = "reads byte " + std::to_string(k.second) + " of " + k.first + ", which is not one of the requested elements"; break; }
            for (auto& k : A.drd) if (bad.empty() && !B.drd.count(k)) bad = "reads at computed address " + C.str(std::get<1>(k)) + "+" + std::to_string(std::get<2>(k)) + " of " + std::get<0>(k) + ", which is not one of the requested elements";
        }
        C.fail.empty() ? void() : (void)(opaque = true);
        if (!C.fail.empty() && bad.empty()) bad = C.fail;
        o["status"] = bad.empty() ? "ok" : opaque ? "unresolved" : "bad"; if (!bad.empty()) o["why"] = bad;
        o["cmp"] = cmp; o["loc"] = locOf(F);
        emit(std::move(o));
    }
    for (auto& [id, F] : sp) if (!pr.count(id)) { json::Object o; o["id"] = id; o["status"] = "noprobe"; emit(std::move(o)); }
    return 0;
}

"""A03: each C API entry point forwards to the operation its name and prototype say."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

NEW = "call(operator new(unsigned long))"
NOISE = re.compile(r"^(__cxa_|strlen$|operator delete|operator new|std::__throw|malloc$|free$|memcpy$|memset$|_Unwind|__clang_call_terminate|std::terminate)")
TY = {"f32": "float", "f64": "double"}
DYN = "18446744073709551615ul"

def layout():
    bc = compile_bc(os.path.join(VERIF, "probes", "capi_layout.cpp"), "capi_layout", NOOPT)
    ir = sh([LLVM + "/bin/llvm-dis", bc, "-o", "-"]).stdout
    return {k: int(v) for k, v in re.findall(r"^@(\w+) = .*constant i64 (\d+)", ir, re.M)}

def off(base, n): return base if n == 0 else "%s+%d" % (base, n)

def run():
    c = Check("A03", "proof")
    tool = build_tool("capifwd")
    bc = build_bitcode(lib_tus([], parts=("capi",)))
    facts = run_tool_json([tool] + list(bc.values()))
    lay = layout()
    fns = {f["fn"]: f for f in facts if f["kind"] == "fn"}
    vts = {f["name"]: f for f in facts if f["kind"] == "vtable"}
    kept = {f["fn"]: f for f in facts if f["kind"] == "kept"}
    def bad(fn, what): c.violation("%s:%s" % (fn, what.split(":")[0][:60]), "%s (%s): %s" % (fn, fns[fn]["loc"] if fn in fns else "?", what))
    def need(fn):
        if fn not in fns: raise AnalysisBroken("exported function %s not found" % fn)
        c.obligation()
        return fns[fn]
    def real_calls(f):
        """calls that are not allocation/unwinding; virtual calls made in catch handlers (e.what()) are dropped"""
        r = []
        for k in f["calls"]:
            if "virt" in k:
                if "__cxa_begin_catch" in k["virt"]: continue
                r.append(k)
            elif not NOISE.match(k["dem"]): r.append(k)
        return r
    def slot_of(k):
        """slot index of a virtual call through the handle's vtable"""
        m = re.match(r"^load\(load\(arg0\)(?:\+(\d+))?\)$", k.get("virt", ""))
        return int(m.group(1) or 0) // 8 if m else None

    # ---- plans -----------------------------------------------------------------------------------------------
    for T in ("f32", "f64"):
        for kind in ("dft", "dft_real"):
            creates = ["kfr_%s_create_%splan_%s" % (kind, d, T) for d in ("", "2d_", "3d_", "md_")]
            tables = []
            for cn in creates:
                f = need(cn)
                dims = re.search(r"create_(\w*?)_?plan", cn).group(1)
                ctors = [k for k in real_calls(f) if re.search(r"::(dft_plan|dft_plan_md|dft_plan_real|dft_plan_md_real)\(", k.get("dem", ""))]
                cls = {"dft": "dft_plan", "dft_real": "dft_plan_real"}[kind] if not dims else {"dft": "dft_plan_md", "dft_real": "dft_plan_md_real"}[kind]
                if len(ctors) != 1: bad(cn, "expected exactly one plan constructor call, found %d" % len(ctors)); continue
                k = ctors[0]
                m = re.match(r"(?:void )?kfr::(\w+)<(\w+)", k["dem"])
                if m.group(1) != cls or m.group(2) != TY[T]:
                    bad(cn, "constructs %s instead of %s<%s>" % (k["dem"].split("(")[0], cls, TY[T])); continue
                mo = re.match(re.escape(NEW) + r"(?:\+(\d+))?$", k["args"][0])
                if not mo: bad(cn, "plan is not built inside the allocated handle: %s" % k["args"][0]); continue
                poff = int(mo.group(1) or 0)
                if not dims:
                    if k["args"][1] != "arg0": bad(cn, "size argument is %s, not the caller's size" % k["args"][1])
                    if kind == "dft_real" and k["args"][2] != "arg1": bad(cn, "pack format argument is %s, not the caller's" % k["args"][2])
                else:
                    nd = {"2d": 2, "3d": 3, "md": None}[dims]
                    if kind == "dft_real":
                        want = "arg%d" % (nd if nd else 2)
                        if k["args"][2] != want: bad(cn, "real_out_is_enough argument is %s, not %s" % (k["args"][2], want))
                    sts = f["stores"]
                    if nd:
                        heap = {s["ptr"].get("off"): s["val"] for s in sts if s["ptr"].get("base") == NEW and re.match(r"arg\d$", s.get("val", ""))}
                        for i in range(nd):
                            if heap.get(str(8 * i)) != "arg%d" % i:
                                bad(cn, "dimension %d of the plan's shape is %s, not the caller's size%d" % (i, heap.get(str(8 * i)), i + 1))
                        allocs = [x["args"][0] for x in f["calls"] if x.get("dem", "").startswith("operator new")]
                        if "#%d" % (8 * nd) not in allocs: bad(cn, "shape of %d dimensions not allocated (allocations %s)" % (nd, allocs))
                    else:
                        ok = [s for s in sts if s["ptr"].get("base") == NEW and s["ptr"].get("step") == "8" and s["ptr"].get("off") == "0"
                              and s.get("from", {}).get("base") == "arg1" and s["from"].get("step") == "4" and s["from"].get("off") == "0" and s.get("trip") == "arg0"]
                        if len(ok) != 1: bad(cn, "the caller's dimension list is not copied element by element into the plan's shape")
                        if not any(x.get("dem", "").startswith("operator new") and x["args"][0] in ("shl(arg0,#3)", "mul(arg0,#8)") for x in f["calls"]):
                            bad(cn, "shape length is not the caller's number of dimensions")
                # handle object: vtable at offset 0, same object returned
                vt = sorted({v for v, p in f["vtables"] if p == NEW})
                if len(vt) != 1: bad(cn, "handle gets vtables %s" % vt); continue
                if NEW not in f["rets"] or any(r not in (NEW, "null") for r in f["rets"]): bad(cn, "does not return the object it built: %s" % f["rets"])
                tables.append((cn, vt[0], poff, cls))
            # ---- users of the handle
            def users(op, sig_args, check):
                fn = "kfr_%s_%s_%s" % (kind, op, T)
                f = need(fn)
                calls = real_calls(f)
                if len(calls) != 1 or slot_of(calls[0]) is None:
                    bad(fn, "expected one virtual call on the plan, found %s" % [x.get("dem", x.get("virt")) for x in calls]); return
                k = calls[0]
                if k["args"] != ["arg%d" % i for i in range(sig_args)]:
                    bad(fn, "passes %s to the plan" % k["args"]); return
                sl = slot_of(k)
                for cn, vt, poff, cls in tables:
                    c.obligation()
                    ms = vts[vt].get("methods")
                    if not ms or sl >= len(ms): raise AnalysisBroken("vtable %s has no slot %d" % (vt, sl))
                    check(fn, f, cn, ms[sl], poff, cls)
            def plan_calls(m): return [x for x in m["calls"] if re.search(r"kfr::(dft_plan|dct_plan)", x.get("dem", ""))]
            def chk_exec(inv):
                def g(fn, f, cn, m, poff, cls):
                    pc = plan_calls(m)
                    if len(pc) != 1: bad(fn, "for plans of %s, %s calls %s" % (cn, m["dem"], [x["dem"] for x in pc])); return
                    k = pc[0]
                    mm = re.match(r"(?:void )?kfr::(\w+)<(\w+)[^:]*>::execute(<[^(]*>)?\((.*)$", k["dem"])
                    if not mm or mm.group(1) not in (cls,) or mm.group(2) != TY[T]:
                        bad(fn, "for plans of %s runs %s" % (cn, k["dem"])); return
                    want = [off("arg0", poff), "arg1", "arg2", "arg3"]
                    if k["args"][:4] != want: bad(fn, "for plans of %s %s hands %s to the transform instead of %s" % (cn, m["dem"], k["args"][:4], want))
                    params = mm.group(4)
                    outc, inc = [("complex" in p) for p in params.split(",")[:2]]
                    dirs = set(re.findall(r"cval_t<bool, (true|false)>", params))
                    if mm.group(3): dirs |= set(re.findall(r"<(true|false)>", mm.group(3)))
                    if len(k["args"]) > 4 and not dirs: dirs = {{"#0": "false", "#-1": "true", "#1": "true"}.get(k["args"][4], "?")}
                    if not dirs and kind == "dft_real": dirs = {"true"} if (inc and not outc) else {"false"} if (outc and not inc) else {"?"}
                    if dirs != {"true" if inv else "false"}: bad(fn, "for plans of %s runs direction %s" % (cn, sorted(dirs)))
                    if kind == "dft_real" and (outc, inc) != ((False, True) if inv else (True, False)): bad(fn, "for plans of %s uses overload %s" % (cn, params))
                return g
            users("execute", 4, chk_exec(False))
            users("execute_inverse", 4, chk_exec(True))
            short = {"dft_plan": "c", "dft_plan_md": "mc", "dft_plan_real": "r", "dft_plan_md_real": "mr"}
            def lk(cls, what): return lay["off_%s%s_%s" % (short[cls], TY[T][0], what)]
            def chk_temp(fn, f, cn, m, poff, cls):
                if m["rets"] != ["load(%s)" % off("arg0", poff + lk(cls, "temp"))]: bad(fn, "for plans of %s returns %s, not the plan's scratch size" % (cn, m["rets"]))
            def chk_size(fn, f, cn, m, poff, cls):
                o = "load(%s)" % off("arg0", poff + lk(cls, "size"))
                if "md" not in cls:
                    if m["rets"] != [o]: bad(fn, "for plans of %s returns %s, not the plan's size" % (cn, m["rets"]))
                else:
                    s = set(m["retslice"])
                    elem = any(re.match(r"load\((?:phi|" + re.escape(o) + r").*\)$", x) for x in s)
                    if "mul" not in s or not elem or o not in s or "add" in s & {"sub", "shl", "lshr", "ashr"}: bad(fn, "for plans of %s does not return the product of the plan's dimensions (%s)" % (cn, sorted(s)))
            def chk_dump(fn, f, cn, m, poff, cls):
                pc = plan_calls(m)
                if len(pc) != 1 or not re.match(r"kfr::%s<%s[^:]*>::dump" % (cls, TY[T]), pc[0]["dem"].replace("dft_plan_real<%s" % TY[T], "dft_plan_real<%s" % TY[T])) or pc[0]["args"][0] != off("arg0", poff):
                    base = cls == "dft_plan_real" and len(pc) == 1 and re.match(r"kfr::dft_plan<%s>::dump" % TY[T], pc[0]["dem"]) and pc[0]["args"][0] == off("arg0", poff)
                    if not base: bad(fn, "for plans of %s dumps via %s" % (cn, [x["dem"] for x in pc]))
            users("get_temp_size", 1, chk_temp)
            users("get_size", 1, chk_size)
            users("dump", 1, chk_dump)
            def chk_del(fn, f, cn, m, poff, cls):
                if not re.search(r"D0Ev$", m["fn"]): bad(fn, "for plans of %s calls %s, which does not free the object" % (cn, m["dem"])); return
                if not any(x.get("dem", "").startswith("operator delete") and x["args"][0] == "arg0" for x in m["calls"]): bad(fn, "for plans of %s the object itself is not freed" % cn)
            users("delete_plan", 1, chk_del)
            c.sample("%s %s: %s" % (kind, T, [(a, b) for a, b, _, _ in tables]))
        # ---- cosine
        f = need("kfr_dct_create_plan_" + T); fn = f["fn"]
        k = [x for x in real_calls(f)]
        if len(k) != 1 or not k[0].get("dem", "").startswith("kfr::dct_plan<%s>::dct_plan(" % TY[T]) or k[0]["args"] != [NEW, "arg0"]: bad(fn, "does not construct dct_plan<%s> of the caller's size in the returned object: %s" % (TY[T], [(x.get("dem"), x["args"]) for x in k]))
        if not any(x.get("dem", "").startswith("operator new") and x["args"][0] == "#%d" % lay["sizeof_t" + TY[T][0]] for x in f["calls"]): bad(fn, "allocates the wrong object size")
        if set(f["rets"]) != {NEW, "null"}: bad(fn, "returns %s" % f["rets"])
        for op, inv in (("execute", "#0"), ("execute_inverse", "#-1")):
            f = need("kfr_dct_%s_%s" % (op, T)); fn = f["fn"]
            k = real_calls(f)
            if len(k) != 1 or not k[0].get("dem", "").startswith("kfr::dct_plan<%s>::execute(" % TY[T]) or k[0]["args"][:4] != ["arg0", "arg1", "arg2", "arg3"] or \
               (k[0]["args"][4:] not in ([inv], ["#1"] if inv == "#-1" else [inv]) and not (len(k[0]["args"]) == 4 or k[0]["args"][4] == "undef")):
                bad(fn, "runs %s" % [(x.get("dem", x.get("virt")), x["args"]) for x in k])
            elif k[0]["args"][4:] in ([], ["undef"]):
                d = re.findall(r"cval_t<bool, (true|false)>", k[0]["dem"])
                if d != ["true" if inv == "#-1" else "false"]: bad(fn, "runs direction %s" % d)
        f = need("kfr_dct_get_size_" + T)
        if sorted(set(f["rets"]) - {"#0"}) != ["load(%s)" % off("arg0", lay["off_t%s_size" % TY[T][0]])]: bad(f["fn"], "returns %s" % f["rets"])
        f = need("kfr_dct_get_temp_size_" + T)
        if sorted(set(f["rets"]) - {"#0"}) != ["load(%s)" % off("arg0", lay["off_t%s_temp" % TY[T][0]])]: bad(f["fn"], "returns %s" % f["rets"])
        f = need("kfr_dct_dump_" + T)
        k = real_calls(f)
        if len(k) != 1 or not re.match(r"kfr::d[fc]t_plan<%s>::dump" % TY[T], k[0].get("dem", "")) or k[0]["args"] != ["arg0"]: bad(f["fn"], "runs %s" % [x.get("dem") for x in k])
        f = need("kfr_dct_delete_plan_" + T)
        if not any(x.get("dem", "").startswith("operator delete") and x["args"][0] == "arg0" for x in f["calls"]): bad(f["fn"], "the plan object is not freed")
        # the same members must be destroyed as for a plain dft_plan (its destructor is inlined here)
        if sum(1 for x in f["calls"] if x.get("dem", "").startswith("operator delete")) < 2 or not any(x.get("dem") == "free" for x in f["calls"]): bad(f["fn"], "the plan's members are not destroyed")

        # ---- filters
        cn = need("kfr_filter_create_fir_plan_" + T)
        def univ(f):
            return any(x.get("dem", "").find("make_univector<%s" % TY[T]) >= 0 and x["args"][1:3] == ["arg0", "arg1"] for x in f["calls"])
        fir = [x for x in cn["calls"] if re.search(r"::fir_filter\(", x.get("dem", ""))]
        if len(fir) != 1 or not fir[0]["dem"].startswith("kfr::fir_filter<%s" % TY[T]) or fir[0]["args"][0] != NEW: bad(cn["fn"], "does not construct fir_filter<%s> in the returned object" % TY[T])
        elif not univ(cn): bad(cn["fn"], "the taps are not taken from the caller's array and size")
        f = need("kfr_filter_create_convolution_plan_" + T)
        cv = [x for x in f["calls"] if re.search(r"::convolve_filter\(", x.get("dem", ""))]
        if len(cv) != 1 or not cv[0]["dem"].startswith("kfr::convolve_filter<%s" % TY[T]) or cv[0]["args"][0] != NEW: bad(f["fn"], "does not construct convolve_filter<%s> in the returned object" % TY[T])
        else:
            if not univ(f): bad(f["fn"], "the taps are not taken from the caller's array and size")
            a = cv[0]["args"][2]
            if a != "arg2" and not re.match(r"select\(icmp,#\d+,arg2\)$|select\(icmp,arg2,#\d+\)$", a) and not (a.startswith("phi") and cv[0]["deps"][2] == [2]): bad(f["fn"], "block size is %s, not the caller's" % a)
        f = need("kfr_filter_create_iir_plan_" + T)
        ii = [x for x in f["calls"] if re.search(r"::iir_filter\(", x.get("dem", ""))]
        sz = lay["sizeof_sos_" + TY[T][0]]
        if len(ii) != 1 or not ii[0]["dem"].startswith("kfr::iir_filter<%s" % TY[T]) or ii[0]["args"][0] != NEW: bad(f["fn"], "does not construct iir_filter<%s> in the returned object" % TY[T])
        else:
            if not any(x.get("dem", "").startswith("operator new") and x["args"][0] == "mul(arg1,#%d)" % sz for x in f["calls"]): bad(f["fn"], "does not hold exactly the caller's number of sections")
            cp = [s for s in f["stores"] if s.get("from", {}).get("base") == "arg0" and s["ptr"].get("base") == NEW]
            if not cp or any(s["from"].get("off", "0") != "0" or s["ptr"].get("off", "0") != "0" for s in cp): bad(f["fn"], "the caller's sections are not copied from the start of the caller's array")
            for s in cp:
                if "len" in s and not re.search(r"mul\(arg1,#%d\)" % sz, s["len"]): bad(f["fn"], "copies %s bytes of sections" % s["len"])
                if "len" not in s and s.get("trip") != "arg1": bad(f["fn"], "copies %s sections" % s.get("trip"))
        for k in ("fir", "convolution", "iir"):
            f = fns["kfr_filter_create_%s_plan_%s" % (k, T)]
            if set(f["rets"]) != {NEW, "null"}: bad(f["fn"], "returns %s" % f["rets"])
        f = need("kfr_filter_process_" + T); k = real_calls(f)
        if len(k) != 1 or not k[0].get("dem", "").startswith("kfr::filter<%s>::apply(%s*, %s const*, unsigned long)" % (TY[T], TY[T], TY[T])) or k[0]["args"] != ["arg0", "arg1", "arg2", "arg3"]:
            bad(f["fn"], "runs %s" % [(x.get("dem", x.get("virt")), x["args"]) for x in k])
        # reset / delete through the filter base vtable
        fvt = [v for v in vts if re.match(r"_ZTVN3kfr.*(fir_filter|iir_filter|convolve_filter|expression_filter)", v)]
        for op in ("reset", "delete_plan"):
            f = need("kfr_filter_%s_%s" % (op, T)); k = real_calls(f)
            if len(k) != 1 or slot_of(k[0]) is None or k[0]["args"] != ["arg0"]: bad(f["fn"], "expected one virtual call on the filter, found %s" % [(x.get("dem", x.get("virt")), x["args"]) for x in k]); continue
            tabs = [v for v in fvt if vts[v].get("methods")]
            c.floor("filter vtables", len(tabs), 2)
            for v in tabs:
                c.obligation()
                m = vts[v]["methods"][slot_of(k[0])]
                if op == "reset" and not re.search(r"::reset\(\)$", m["dem"]): bad(f["fn"], "calls %s" % m["dem"])
                if op == "delete_plan" and not re.search(r"D0Ev$", m["fn"]): bad(f["fn"], "calls %s, which does not free the object" % m["dem"])
    # ---- memory
    for fn, want in (("kfr_allocate", None), ("kfr_deallocate", None)):
        if fn in fns: c.obligation()
    for fn in ("kfr_add_ref",):
        f = need(fn)
        if set(f["rets"]) - {"arg0"}: bad(fn, "returns %s" % f["rets"])
    c.floor("C API functions", len(fns), 70)
    return c.finish("For each exported function (library code inlined, public C++ entry points kept as call nodes): the C++ entry point reached, through the vtable the matching create function installs, "
                    "is of the right class, precision, kind and direction, and each argument is the caller's argument in that role; constructors receive the caller's sizes, shapes and coefficients; "
                    "size queries return the plan's own size/scratch fields; delete reaches the deleting destructor.",
                    functions=len(fns), vtables=len(vts), entry_points=len(kept))
main(run)

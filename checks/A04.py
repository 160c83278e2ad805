"""A04: header/definition/constant agreement of the C API."""
import os, sys, json, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

HDR = os.path.join(REPO, "include/kfr/capi.h")
# C enumerator -> C++ constant it stands for (which the library compares or casts it to)
ENUMS = {
    "KFR_ARCH_X86": "(int)kfr::cpu_t::generic", "KFR_ARCH_SSE2": "(int)kfr::cpu_t::sse2", "KFR_ARCH_SSE3": "(int)kfr::cpu_t::sse3",
    "KFR_ARCH_SSSE3": "(int)kfr::cpu_t::ssse3", "KFR_ARCH_SSE41": "(int)kfr::cpu_t::sse41", "KFR_ARCH_SSE42": "(int)kfr::cpu_t::sse42",
    "KFR_ARCH_AVX": "(int)kfr::cpu_t::avx", "KFR_ARCH_AVX2": "(int)kfr::cpu_t::avx2", "KFR_ARCH_AVX512": "(int)kfr::cpu_t::avx512",
    "Perm": "(int)kfr::dft_pack_format::Perm", "CCs": "(int)kfr::dft_pack_format::CCs",
}
LAYOUT = [
    ("kfr_f32 is float", "sizeof(kfr_f32) == sizeof(float)"), ("kfr_f64 is double", "sizeof(kfr_f64) == sizeof(double)"),
    ("kfr_c32 units", "sizeof(kfr_c32) * KFR_COMPLEX_SIZE_MULTIPLIER == 2 * sizeof(float)"),
    ("kfr_c64 units", "sizeof(kfr_c64) * KFR_COMPLEX_SIZE_MULTIPLIER == 2 * sizeof(double)"),
]
LAYOUT_CPP = LAYOUT + [
    ("complex<float> layout", "sizeof(kfr::complex<float>) == sizeof(kfr_c32) * KFR_COMPLEX_SIZE_MULTIPLIER"),
    ("complex<double> layout", "sizeof(kfr::complex<double>) == sizeof(kfr_c64) * KFR_COMPLEX_SIZE_MULTIPLIER"),
    ("biquad section layout f32", "sizeof(kfr::biquad_section<float>) == 6 * sizeof(kfr_f32)"),
    ("biquad section layout f64", "sizeof(kfr::biquad_section<double>) == 6 * sizeof(kfr_f64)"),
    ("biquad section order a0", "__builtin_offsetof(kfr::biquad_section<float>, a0) == 0"),
    ("biquad section order a1", "__builtin_offsetof(kfr::biquad_section<float>, a1) == 4"),
    ("biquad section order a2", "__builtin_offsetof(kfr::biquad_section<float>, a2) == 8"),
    ("biquad section order b0", "__builtin_offsetof(kfr::biquad_section<float>, b0) == 12"),
    ("biquad section order b1", "__builtin_offsetof(kfr::biquad_section<float>, b1) == 16"),
    ("biquad section order b2", "__builtin_offsetof(kfr::biquad_section<float>, b2) == 20"),
]

def header_decls(lang):
    cc = [CLANGXX, "-x", lang, "-std=" + ("c11" if lang == "c" else "gnu++17"), "-I" + REPO + "/include",
          "-fsyntax-only", "-Xclang", "-ast-dump=json", HDR]
    r = sh(cc)
    if r.returncode: return None, None, r.stderr
    ast = json.loads(r.stdout)
    fns, enums = {}, {}
    def line(n):
        return n.get("loc", {}).get("line") or n.get("loc", {}).get("expansionLoc", {}).get("line")
    def walk(n, last):
        k = n.get("kind")
        if k == "FunctionDecl" and n.get("name", "").startswith("kfr_"): fns[n["name"]] = n["type"]["qualType"]
        if k == "EnumDecl":
            val = -1
            for e in n.get("inner", []):
                if e.get("kind") != "EnumConstantDecl": continue
                v = None
                def findv(x):
                    if "value" in x and x.get("kind") in ("ConstantExpr", "IntegerLiteral"): return int(x["value"])
                    for y in x.get("inner", []):
                        z = findv(y)
                        if z is not None: return z
                    return None
                v = findv(e)
                val = val + 1 if v is None else v
                enums[e["name"]] = val
        for x in n.get("inner", []): walk(x, last)
    walk(ast, None)
    return fns, enums, None

def run():
    c = Check("A04", "proof")
    # 1. the header is usable from C and from C++
    decls = {}
    for lang in ("c", "c++"):
        c.obligation()
        fns, enums, err = header_decls(lang)
        if fns is None:
            c.violation("header:" + lang, "include/kfr/capi.h does not compile as %s: %s" % (lang, err.strip().splitlines()[0]))
        else: decls[lang] = (fns, enums)
    if not decls: raise AnalysisBroken("capi.h could not be parsed in any language")
    fns, enums = decls.get("c") or decls["c++"]
    c.floor("declared C functions", len(fns), 70)
    c.floor("C enumerators", len(enums), 11)
    # 2. IR type of the declaration (as a caller sees it) against the definition in the library
    tool = build_tool("irquery")
    os.makedirs(CACHE, exist_ok=True)
    lang = "c" if "c" in decls else "c++"
    src = os.path.join(CACHE, "A04.probe." + ("c" if lang == "c" else "cpp"))
    with open(src, "w") as f:
        f.write('#include <kfr/capi.h>\n')
        names = sorted(fns)
        if lang == "c++": f.write('extern "C" ')
        f.write("void* kfr_probe_table[%d] = {\n" % len(names) + ",\n".join("(void*)&" + n for n in names) + "};\n")
    out = os.path.join(CACHE, "A04.probe.bc")
    r = sh([CLANGXX, "-x", lang, "-w", "-I" + REPO + "/include", "-emit-llvm", "-c", src, "-o", out] + (["-std=c11"] if lang == "c" else ["-std=gnu++17"]))
    if r.returncode: raise AnalysisBroken("probe of C declarations does not compile: " + r.stderr[-2000:])
    use = {d["name"]: d for d in run_tool_json([tool, "functions", out])}
    bc = build_bitcode(lib_tus([], parts=("capi",)))
    defs = {}
    for p in bc.values():
        for d in run_tool_json([tool, "functions", p]):
            if d["name"].startswith("kfr_"): 
                if d["defined"] or d["name"] not in defs: defs[d["name"]] = d
    for n in names:
        c.obligation(3)
        d = defs.get(n)
        if not d or not d["defined"]:
            c.violation("undefined:" + n, "%s %s is declared in include/kfr/capi.h but defined nowhere in the C library" % (n, fns[n])); continue
        if d["linkage"] != "external" or d["visibility"] != "default":
            c.violation("hidden:" + n, "%s (%s) is declared in capi.h but not exported: linkage %s, visibility %s" % (n, d["loc"], d["linkage"], d["visibility"]))
        u = use.get(n)
        if u is None: raise AnalysisBroken("declaration of %s missing from probe" % n)
        ut = u["type"]
        if lang == "c" and ut.endswith("(...)"): ut = ut[:-5] + "()"   # C declaration without a prototype
        if ut != d["type"]:
            c.violation("type:" + n, "%s: a C caller passes/expects %s but the definition (%s) has %s" % (n, u["type"], d["loc"], d["type"]))
        c.sample("%s: %s, %s, %s" % (n, d["type"], d["linkage"], d["visibility"]))
    # exported functions that no header declares would be unusable; report only as information
    undeclared = sorted(n for n, d in defs.items() if d["defined"] and d["visibility"] == "default" and n not in fns)
    # 3. enumerators and layouts: one static_assert each
    asserts = [("enum " + e, "%s == %s" % (v, ENUMS[e])) for e, v in sorted(enums.items()) if e in ENUMS]
    asserts += [("layout " + n, x) for n, x in LAYOUT_CPP]
    c.floor("mapped enumerators", sum(1 for e in enums if e in ENUMS), 11)
    src = os.path.join(CACHE, "A04.assert.cpp")
    with open(src, "w") as f:
        f.write("#define KFR_NO_C_COMPLEX_TYPES 1\n#include <kfr/capi.h>\n#include <kfr/dft.hpp>\n#include <kfr/dsp.hpp>\n")
        base = 4
        for i, (n, x) in enumerate(asserts): f.write('static_assert(%s, "A04:%d");\n' % (x, i))
    r = sh([CLANGXX, "-std=gnu++17", "-w", "-I" + REPO + "/include", "-fsyntax-only", "-ferror-limit=0", src])
    failed = {int(m) for m in re.findall(r'"?A04:(\d+)', r.stderr)}
    if r.returncode and not failed: raise AnalysisBroken("constant witness does not compile: " + r.stderr[-2000:])
    # a witness that must fail, to show that the mechanism reports
    for i, (n, x) in enumerate(asserts):
        c.obligation()
        if i in failed: c.violation("const:" + n, "%s: %s does not hold" % (n, x))
    # the values the C mode sees
    if "c" in decls:
        src = os.path.join(CACHE, "A04.assert.c")
        with open(src, "w") as f:
            f.write("#include <kfr/capi.h>\n")
            for i, (n, x) in enumerate(LAYOUT): f.write('_Static_assert(%s, "A04:%d");\n' % (x, i))
        r = sh([CLANGXX, "-x", "c", "-std=c11", "-w", "-I" + REPO + "/include", "-fsyntax-only", src])
        failed = {int(m) for m in re.findall(r'A04:(\d+)', r.stderr)}
        for i, (n, x) in enumerate(LAYOUT):
            c.obligation()
            if i in failed: c.violation("clayout:" + n, "in C, %s: %s does not hold" % (n, x))
    return c.finish("Every function declared in the public C header (parsed by clang as C11 and C++17) is looked up in the IR of the C library: defined, external, default "
                    "visibility, and of the same lowered type as the call a C program compiles; every enumerator and layout constant is equated with its C++ counterpart by static_assert.",
                    declared=len(fns), enumerators=len(enums), static_asserts=len(asserts), exported_but_undeclared=undeclared)
main(run)

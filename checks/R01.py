"""R01: for every dispatcher and every CPU level, fold the level and compare the variant that remains called with the best enabled one."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

NAMES = ["generic", "sse2", "sse3", "ssse3", "sse41", "sse42", "avx", "avx2", "avx512"]

def expected(level, enabled):
    best = None
    for i in range(1, level + 1):
        if NAMES[i] in enabled: best = NAMES[i]
    return best

def examine(c, d, enabled, where):
    lv = {l["level"]: l for l in d["levels"]}
    key = lambda x: (x["name"], tuple(x["args"]))
    live = [l for l in lv.values() if expected(l["level"], enabled)]
    if not live: return
    common = set.intersection(*[{key(x) for x in l["calls"]} for l in live]) if len(enabled) > 1 else set()
    neutral = set(); first = None
    for l in live:
        c.obligation()
        want = expected(l["level"], enabled)
        calls = [x for x in l["calls"] if key(x) not in common]
        name = NAMES[l["level"]]
        if len(calls) != 1:
            c.violation("%s:%s:%s" % (where, d["name"], name), "%s (%s) %s: at CPU level %s it calls %d instruction-set specific implementations (%s), expected one, for %s"
                        % (d["dem"], d["loc"], where, name, len(calls), ", ".join(x["dem"] for x in calls[:3]), want)); continue
        x = calls[0]
        if x["arch"] != want:
            c.violation("%s:%s:%s" % (where, d["name"], name), "%s (%s) %s: at CPU level %s it runs the %s implementation, the best usable one is %s" % (d["dem"], d["loc"], where, name, x["arch"], want))
        neutral.add(x["neutral"])
        params = d["params"]
        ctor = re.search(r"(\w+)(<.*>)?::\1\(", d["dem"]) is not None
        a = [s for s in x["args"] if s != "sret"]
        # every argument is a parameter of the caller, or a fixed place in an object the caller was given
        pure = [int(s[1:]) for s in a if re.match(r"^p\d+$", s)]; der = {int(re.match(r"^p(\d+)", s).group(1)) for s in a if re.match(r"^p\d+(->|\+\d+)+$", s)}
        need = [i for i, p in enumerate(params) if p != "sret"]
        if d["levelarg"]: need = need[1:]
        rest = [i for i in need if i not in der or i in pure]
        ok = (pure == rest or (ctor and pure == rest[1:])) and len(pure) + sum(1 for s in a if re.match(r"^p\d+(->|\+\d+)+$", s)) == len(a)
        if first is None: first = a
        ok = ok and a == first
        if not ok:
            c.violation("%s:%s:args" % (where, d["name"]), "%s (%s) %s: the %s implementation receives %s instead of the caller's arguments in order" % (d["dem"], d["loc"], where, x["arch"], x["args"]))
    if len(neutral) > 1:
        c.violation("%s:%s:names" % (where, d["name"]), "%s (%s) runs different functions at different levels: %s" % (d["dem"], d["loc"], sorted(neutral)))
    c.sample("%s -> %s" % (d["dem"][:120], {NAMES[l["level"]]: [x["arch"] for x in l["calls"] if key(x) not in common] for l in live}))

def run():
    c = Check("R01", "proof")
    tool = build_tool("dispatch")
    bc = build_bitcode(lib_tus(["sse2"], parts=("dft", "dsp")))
    res = [r for r in run_tool_json([tool] + list(bc.values())) if r["kind"] == "dispatcher"]
    n = 0
    for d in res:
        d["levelarg"] = False
        if not any(l["calls"] for l in d["levels"]): continue
        n += 1
        examine(c, d, set(ARCHS), "in the five-architecture build")
    c.floor("dispatching functions", n, 20)
    # the dispatch macro for every subset of enabled instruction sets
    sets = NAMES[1:]
    masks = range(1, 256) if c.tier == "thorough" else [m for m in range(1, 256) if bin(m).count("1") in (1, 2, 7, 8) or m % 5 == 0]
    src = os.path.join(VERIF, "probes", "dispatch_probe.cpp")
    def one(m):
        en = [s for i, s in enumerate(sets) if m >> i & 1]
        fl = ["-DCMT_MULTI=1", "-mno-sse3", "-msse2", "-DCMT_BASE_ARCH=1"] + ["-DCMT_MULTI_ENABLED_%s=1" % s.upper() for s in en]
        p = compile_bc(src, "dispatch_probe_%02x" % m, NOOPT + fl)
        return en, run_tool_json([tool, p])
    with ThreadPoolExecutor(JOBS) as ex: out = list(ex.map(one, masks))
    for en, rs in out:
        ds = [r for r in rs if r["kind"] == "dispatcher" and r["dem"].startswith("kfr::") and "gate_" in r["dem"]]
        if len(ds) != 2: raise AnalysisBroken("dispatch probe: %d dispatchers seen with %s" % (len(ds), en))
        for d in ds:
            d["levelarg"] = False
            examine(c, d, set(en), "with {%s} enabled" % ",".join(en))
    return c.finish("Every function of the baseline build that asks for the CPU level is cloned once per level (0 to 8); the level is substituted, constants are propagated and unreachable code removed. "
                    "What remains must call exactly one instruction-set specific implementation: the one compiled for the highest enabled set not above the level, the same function in every arm, with each parameter of the dispatcher forwarded once and in order. "
                    "The dispatch macro itself is checked the same way for %d subsets of enabled instruction sets." % len(list(masks)),
                    dispatchers=n, subsets=len(list(masks)), units=sorted(bc))
main(run)

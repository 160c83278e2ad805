chk("A01", "interprocedural exception-flow analysis of LLVM IR", "proof",
    "Holds for every input and every throwing point, on the clang/libstdc++ IR of the SSE2 build of all library code (all five instruction sets in thorough mode); external C functions are trusted to have their declared exception behaviour.")
chk("A04", "type-checked declaration/definition comparison (AST, IR, static_assert witnesses)", "proof",
    "Complete over the header's declarations and enumerators for the x86-64 Linux build.")
chk("A02", "path-sensitive typestate dataflow over LLVM IR", "proof",
    "Every path of every exported plan/filter function of the x86-64 build, with the library inlined; libstdc++'s what() is trusted to return a non-empty string.")
chk("A03", "call-graph and value-provenance analysis over LLVM IR (C entry point -> vtable -> C++ entry point)", "proof",
    "Complete over the exported functions and the vtables their create functions install; what the reached C++ entry points compute is the subject of other properties.")
chk("D01", "interprocedural write-effect (access-path provenance) analysis over LLVM IR", "proof",
    "Every normally completing path of every stage and execute overload of all five instruction-set builds; writes are attributed to whole objects (extents are N07), error paths that throw are not followed, libm and allocator calls are trusted to have their documented effects.")
chk("D03", "allocation reachability and nullness/typestate dataflow over LLVM IR", "proof",
    "Every execute overload and stage in all five builds; that temp_size is sufficient for the stages is not part of the property (N07).")
chk("D05", "constant-folding call-graph query with argument provenance over LLVM IR", "proof",
    "Every execute overload of complex, real and multidimensional plans (cosine plans run a forward complex transform in both directions and are outside).")
chk("R01", "partial evaluation of dispatch gates per CPU level + call-graph query over LLVM IR", "proof",
    "Every dispatch gate reachable from the exported dft/dsp entry points and probes, at each of the nine CPU levels; which implementation each per-architecture function computes is the subject of R03.")
chk("R02", "known-bits constant propagation over LLVM IR, specialised per absent feature", "proof",
    "Every combination of CPUID and XCR0 bits for the x86-64 build; the meaning of the bits is taken from the Intel manual.")
chk("R03", "symbol, target-feature and start-up-code query over the optimised LLVM IR of every object", "proof",
    "Every externally visible definition and static initialiser of the five-architecture dft/dsp objects and the io object, as emitted at the build's own optimisation level; relies on the build's whole-archive linking of the baseline first.")
chk("R04", "global-state effect analysis with lock must-analysis over LLVM IR", "proof",
    "Every store reachable from the library's externally visible functions and a wide instantiation of the header-only API, for every mutable process-wide object; explicit configuration setters are exempt by statement, and the known flac-decoder findings are listed.")
chk("D04", "lock-set must-analysis, dominance-based key agreement and type-level witnesses over flattened LLVM IR", "proof",
    "Every function of the cache class and every user in the library, for any number of threads; std::mutex, std::vector and std::shared_ptr are trusted.")
chk("F02", "state-effect analysis (which members processing changes and reads back) with must-restore and zero-fill coverage proof over flattened LLVM IR", "proof",
    "Every sequence of process calls after a reset for all FIR, IIR and convolution filter classes; the DFT and spectrum multiplication calls are taken at their contracts (read plan and input, overwrite output), and the IIR expression factory builds the same state every time.")
chk("S01", "value-flow analysis of optimised LLVM IR (global value numbering over lanes and bits) of enumerated template instances against lane lists", "proof",
    "All input values; an enumerated grid of operations, element types, lengths and instruction sets for the native and the portable (GCC/MSVC) back end; the quick run covers a subset of types on the middle instruction sets.")
chk("S05", "value-flow and access-set analysis of optimised LLVM IR of enumerated template instances against scalar access definitions", "proof",
    "All addresses, strides, offsets and memory contents; an enumerated grid of access forms, element types, lengths and instruction sets for both back ends; stores through computed addresses are compared as a set.")
chk("S02", "value-flow analysis of optimised LLVM IR (global value numbering with decision diagrams over lanes and bits) of enumerated template instances against scalar definitions", "proof",
    "All input values including NaN and infinities (results compared up to the choice among NaN payloads the compiler makes); an enumerated grid of operations, element types, lengths and instruction sets for both back ends; integer division by zero and out-of-range conversions are left undefined as in C++.")
chk("S03", "value-flow analysis of optimised LLVM IR to polynomial and rational normal forms of enumerated template instances, against the textbook formulas", "proof",
    "All component values over the reals (rounding is outside the property); operators, conjugations, conversions and complex elementary functions (real elementary functions are opaque) for seven lengths, both precisions and seven configurations.")
chk("S04", "value-flow analysis of optimised LLVM IR of enumerated template instances against the left-to-right scalar fold", "proof",
    "All lane values: integers and bit operations exactly, floating-point sums and products over the reals, minima and maxima over ordered values; all element types, lengths up to 64 including non powers of two, seven configurations (64-bit minima of lengths 5, 9, 12 and 17 are decided with the native back end only).")
chk("D02", "value-flow analysis of optimised LLVM IR: every output component of a stage run on symbolic input reduced to a linear form, compared with the row of the transform's matrix", "proof",
    "All input values over the reals, coefficients equal up to rounding (1e-12 in double, 1e-3 relative in float where the library computes its own float angles); kernels up to 256 points (1024 thorough), radixes 2 to 10 and generic, plan chains, real packing and DCT of the enumerated sizes; five instruction sets and the portable back end. Larger power-of-two plans repeat the recursive stage decided at 256 or 512 points.")
chk("F01", "value-flow analysis of optimised LLVM IR of enumerated template instances and block partitions, against the scalar difference equations", "proof",
    "All coefficients, inputs and states reached from reset, over the reals; 1, 2, 4, 8 and 16 sections (3 and 32 thorough), fully and partly used, 28 block partitions (109 thorough) and five read widths, five instruction sets and the portable back end. Longer signals repeat the per-block step decided here.")
chk("F03", "value-flow analysis of optimised LLVM IR of enumerated template instances and block partitions, against the defining sums", "proof",
    "All coefficients and inputs over the reals, histories reached from reset; short and ring-buffer FIR filters, moving sums and delays of enumerated lengths, 20 block partitions and five read widths, float, double and 32-bit integers, five instruction sets and the portable back end.")
chk("F04", "value-flow analysis of optimised LLVM IR of every designer to rational functions, against the bilinear transform of the prototype", "proof",
    "All real parameters and both signs of the gain, both precisions, over the reals (tan and exp opaque); five instruction sets and the portable back end. Zero-pole-gain IIR design is outside the property.")
chk("I02", "value-flow analysis of optimised LLVM IR of every pair of sample formats, against scale, clamp to a representable full scale, truncate", "proof",
    "All sample values other than NaN; all 49 format pairs through seven entry points; counts up to 4 (17 thorough) and up to three channels, the loops having one body per sample; five instruction sets and the portable back end.")

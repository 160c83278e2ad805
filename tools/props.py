#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- C API
prop("A01", "No C++ exception leaves the C API or kills the process through it",
 "Every function of the C interface returns normally to its C caller whenever an allocation, a size or argument validation, or any other step inside the library throws: the exception is neither propagated through the C frame nor turned into process termination.",
 ["inputs", "fault_sequences"], "every exported C function, every argument value (sizes, dimension lists, section counts), every point at which an allocation or validation may throw",
 "Tests call the C API with a handful of valid sizes and never make an allocation fail; whether some throwing path is outside a handler, or inside a function promised not to throw, is a fact about all call paths.",
 ["src/capi/capi.cpp", "include/kfr/capi.h", "include/kfr/dsp/biquad.hpp", "include/kfr/dft/fft.hpp", "src/dft/dft.cpp"],
 [("catch-all wrapper", "src/capi/capi.cpp: try_fn (both overloads)"), ("throw sites", "include/kfr/except.hpp: KFR_LOGIC_CHECK/KFR_RUNTIME_CHECK"), ("no-throw promises on constructors", "include/kfr/dsp/biquad.hpp: iir_params")],
 observe=["return value and kfr_last_error() of any kfr_* call"])
prop("A02", "C API failures give a null handle and a per-thread message",
 "When a C API constructor fails internally it returns a null handle (size queries return 0) and leaves a non-empty message readable through the last-error call; when a C API plan or filter call completes, the message is cleared. The message belongs to the calling thread, so no other thread's call changes it.",
 ["fault_sequences", "schedules"], "every plan/filter function of the C API, success and failure of any step, any number of threads",
 "No test makes a constructor fail in the C API or reads the last error from two threads.",
 ["src/capi/capi.cpp"],
 [("error slot", "src/capi/capi.cpp: thread_local error, set_error, reset_error"), ("result/fallback plumbing", "src/capi/capi.cpp: try_fn")],
 state=[("error", "message of this thread's last failed call", "src/capi/capi.cpp")])
prop("A03", "Each C API function performs the operation its name and prototype say",
 "Each C plan function works on objects of its own precision and kind (complex, real, cosine), executes the direction its name says, hands the caller's output, input and scratch pointers to the transform in exactly those roles, builds plans and filters from the caller's sizes, shapes and coefficients unchanged, and its delete function destroys exactly what the matching create function built.",
 ["inputs", "programs"], "every kfr_dft_*, kfr_dft_real_*, kfr_dct_* and kfr_filter_* function in both precisions",
 "The C API test exercises one or two plan kinds; most of the f64, multi-dimensional, inverse and delete entry points are never called by any test.",
 ["src/capi/capi.cpp", "include/kfr/capi.h"],
 [("entry points", "src/capi/capi.cpp: extern \"C\" block"), ("adapters", "src/capi/capi.cpp: var_dft_plan_impl, var_dft_plan_real_impl")])
prop("A04", "The C header, its constants and the exported C library agree",
 "Every function the C header declares is defined with C linkage and exported from the C library with the declared signature, and every enumerator and constant of the C header has the value its C++ counterpart in the library has.",
 ["programs", "configurations"], "every declaration and enumerator in the public C header",
 "A C program calling an untested function fails only at link time, and a drifted enumerator only in programs that use it; no test enumerates the header.",
 ["include/kfr/capi.h", "src/capi/capi.cpp", "include/kfr/dft/fft.hpp", "include/kfr/simd/platform.hpp"],
 [("declarations", "include/kfr/capi.h"), ("definitions", "src/capi/capi.cpp"), ("enum counterparts", "include/kfr/dft/fft.hpp: dft_pack_format; include/kfr/simd/platform.hpp: cpu_t")])
# ---------------------------------------------------------------- DFT
prop("D01", "Executing a plan modifies neither the plan, its input nor shared data",
 "Executing any DFT, real DFT, multidimensional DFT or DCT plan writes only to the caller's output buffer, the caller's scratch buffer and memory private to the call; the plan object and everything it owns, a distinct input buffer and all process-wide data stay unmodified, so one plan may be executed by many threads at once.",
 ["schedules", "inputs"], "every execution stage of every plan kind in every instruction-set build, every size, both directions and precisions, any number of concurrent executions",
 "Tests execute each plan from a single thread and look only at the output; five instruction-set variants of every stage are compiled and at most two of them run.",
 ["src/dft/dft-impl.hpp", "src/dft/fft-impl.hpp", "src/dft/dft-fft.hpp", "src/dft/dft.cpp", "include/kfr/dft/fft.hpp"],
 [("stage executors", "src/dft/dft-impl.hpp, src/dft/fft-impl.hpp: *_stage_impl::do_execute"), ("plan drivers", "src/dft/dft-fft.hpp: dft_execute and real/md entry points"), ("public wrappers", "include/kfr/dft/fft.hpp: execute/execute_dft")],
 state=[("dft_stage::data", "twiddles and indices owned by the plan, read-only during execution", "include/kfr/dft/fft.hpp")])
prop("D02", "Transform stages compute exactly the Fourier, real and cosine transforms",
 "Each fixed-size FFT kernel, mixed-radix, generic-radix and reordering stage, the chains of stages that small non-power-of-two plans are made of, the packing and unpacking passes of real transforms in both pack formats, and the cosine transform and its inverse compute, for every input, the linear map of the transform's matrix of that size (conjugated for the inverse, unscaled), in every instruction-set build, precision and direction.",
 ["inputs", "configurations"], "all complex or real inputs; the enumerated kernels, radixes and plan sizes; forward and inverse; f32 and f64; all five instruction sets",
 "Tests compare a few random vectors within a tolerance on at most two instruction sets; a wrong coefficient in another build or an unsampled radix/size goes unseen.",
 ["src/dft/ft.hpp", "src/dft/fft-impl.hpp", "src/dft/dft-impl.hpp"],
 [("butterflies", "src/dft/ft.hpp: butterfly helpers"), ("specialised sizes", "src/dft/fft-impl.hpp: fft_specialization"), ("mixed radix", "src/dft/dft-impl.hpp: dft_stage_fixed_impl, dft_stage_generic_impl, dft_reorder_stage_impl"), ("real packing", "src/dft/fft-impl.hpp: to_fmt, from_fmt"), ("cosine transform", "include/kfr/dft/fft.hpp: dct_plan")])
prop("D03", "Caller-supplied scratch means no allocation; null scratch is always accepted",
 "Executing a complex, real or cosine transform plan with a caller-supplied scratch buffer performs no heap allocation, and executing a plan of any kind (complex, real, cosine, multidimensional) with a null scratch pointer is accepted: the plan then obtains scratch of at least its temp_size itself and releases it before returning.",
 ["inputs", "programs"], "every public execute entry point of every plan kind, precision and direction, all sizes",
 "Tests mostly pass a scratch buffer sized by the plan or null to one plan kind, and never observe the allocator during execution.",
 ["include/kfr/dft/fft.hpp", "src/dft/dft-fft.hpp", "src/dft/dft-impl.hpp", "src/dft/dft.cpp"],
 [("fallback scratch", "include/kfr/dft/fft.hpp: execute_dft"), ("drivers", "src/dft/dft-fft.hpp")])
prop("D05", "Every execute overload runs the requested direction on the caller's buffers",
 "Every overload of execute of the complex, real and multidimensional DFT plans, whether the direction is given as a flag, as a tag or by the buffer types, runs exactly the forward or inverse transform requested, of the plan's own precision, from the caller's input buffer into the caller's output buffer with the caller's scratch, and accepts every direction that matches its buffer types.",
 ["inputs", "programs"], "every public execute overload of complex, real and multidimensional plans, both precisions and directions, scratch given or null",
 "Tests call a few overloads of each plan kind; overloads nobody instantiates are not even compiled by the test suite.",
 ["include/kfr/dft/fft.hpp"],
 [("overloads", "include/kfr/dft/fft.hpp: dft_plan::execute, dft_plan_real::execute, dft_plan_md::execute, dft_plan_md_real::execute"), ("drivers", "include/kfr/dft/fft.hpp: execute_dft, execute_dim")])
prop("D04", "The plan cache is race free and returns the plan for the requested key",
 "Every access to the shared plan cache, from any of its functions, happens under the cache's own lock, which is released on every exit; a lookup returns a plan of exactly the requested element type, kind and size, and a plan already handed out stays valid after the cache is cleared.",
 ["schedules", "histories"], "every cache function and every interleaving of threads calling them",
 "Tests call the cache from one thread only.",
 ["include/kfr/dft/cache.hpp"],
 [("lock", "include/kfr/dft/cache.hpp: dft_cache_impl mutex"), ("lookup/insert", "include/kfr/dft/cache.hpp: get, getreal, clear")],
 state=[("cache vectors", "size-indexed shared_ptr plans", "include/kfr/dft/cache.hpp")])
# ---------------------------------------------------------------- runtime
prop("R01", "Runtime dispatch runs the best compiled-in variant and passes all arguments",
 "Every public function that selects an implementation at run time calls, for each possible detected CPU level, exactly the implementation compiled for the highest instruction set that is both compiled in and not above the detected level, and hands it the caller's arguments unchanged and in order.",
 ["configurations", "inputs"], "every dispatching function times every CPU level from the generic fallback to AVX-512",
 "A test run sees exactly one CPU, so one arm of each dispatcher.",
 ["include/kfr/multiarch.h", "src/dft/dft.cpp", "src/dft/dft-fft.hpp", "src/dft/convolution-impl.cpp", "src/dsp/biquad.cpp", "src/dsp/fir.cpp", "src/dsp/sample_rate_conversion.cpp"],
 [("dispatch macro", "include/kfr/multiarch.h: CMT_MULTI_GATE / CMT_MULTI_NEEDS_GATE"), ("detected level", "include/kfr/runtime/cpuid_auto.hpp: get_cpu")])
prop("R02", "A CPU level is reported only if every instruction it licenses is available",
 "CPU detection (detect_cpu, and hence get_cpu) reports an instruction-set level only when the processor has reported every vector-instruction extension that the build's compiler flags enable for that level's code (for example FMA as well as AVX2 for the avx2 level), and, for levels using wider registers, only when the operating system has enabled saving them.",
 ["configurations"], "every combination of CPUID and XCR0 bits",
 "Tests run on one processor; the feature combinations that matter (AVX2 without FMA, AVX without OS support, partial AVX-512) do not occur there.",
 ["include/kfr/runtime/cpuid.hpp", "include/kfr/runtime/cpuid_auto.hpp", "CMakeLists.txt", "cmake/target_set_arch.cmake"],
 [("decision", "include/kfr/runtime/cpuid.hpp: detect_cpu"), ("build flags per level", "cmake/")])
prop("R03", "Code built for a higher instruction set never serves a lower-level CPU",
 "In a multi-architecture build every function whose definition may be merged with another build's copy at link time is either specific to one instruction set by name or also provided by the baseline build that is linked first, so no baseline code path executes instructions of a higher level.",
 ["configurations"], "every linkable symbol of every library object in the five-architecture build",
 "The failure needs an old processor or an unlucky linker choice; tests run on a machine supporting every level.",
 ["include/kfr/cident.h", "include/kfr/kfr.h", "CMakeLists.txt"],
 [("arch-specific inline namespace", "include/kfr/cident.h: CMT_ARCH_NAME"), ("link order", "CMakeLists.txt")])
prop("R04", "The library keeps no unsynchronised mutable process-wide state",
 "Apart from explicitly requested configuration changes, no library function writes process-wide data except during its one-time synchronised initialisation, under a lock, atomically, or per thread; independent objects may therefore be used from different threads without coordination.",
 ["schedules"], "every library function and every interleaving of threads working on distinct objects",
 "Tests are single threaded and cannot see a shared scratch variable.",
 ["src/dft", "src/dsp", "src/io", "src/capi", "include/kfr"],
 [("function-local statics", "include/kfr/runtime/cpuid_auto.hpp: internal_generic::cpu_name etc."), ("plan cache singleton", "include/kfr/dft/cache.hpp"), ("thread-local error", "src/capi/capi.cpp")])
# ---------------------------------------------------------------- SIMD
prop("S01", "SIMD lane rearrangements move exactly the documented lanes",
 "Every vector rearrangement (slice, concatenate, reverse, rotate, interleave, split even/odd, transpose, duplicate, blend, permute, digit reversal and the like) yields, lane by lane, exactly the source lane its definition names and alters no value, for every element type, every vector length and every instruction set.",
 ["inputs", "configurations"], "all lane values; an enumerated grid of operations x element types x lengths (powers of two and odd lengths) x five instruction sets, native and portable back ends",
 "Tests sample a few lengths and run on at most two instruction sets; the SSE2, SSE4.1 and AVX paths and hand-written specialisations are never executed.",
 ["include/kfr/simd/shuffle.hpp", "include/kfr/simd/digitreverse.hpp", "include/kfr/simd/vec.hpp", "include/kfr/simd/impl/specializations.hpp", "include/kfr/simd/impl/backend_clang.hpp", "include/kfr/simd/impl/backend_generic.hpp"],
 [("shuffles", "include/kfr/simd/shuffle.hpp"), ("specialisations", "include/kfr/simd/impl/specializations.hpp"), ("back ends", "include/kfr/simd/impl/backend_*.hpp")])
prop("S02", "SIMD arithmetic, logic, comparison and select act lane by lane as in scalar C++",
 "Every elementwise vector operator (arithmetic, bitwise, shifts, comparisons, select, min, max, absolute value, clamp, saturating add/subtract) produces in each lane the value the scalar definition gives for that lane's operands, independent of the other lanes, the vector length and the instruction set.",
 ["inputs", "configurations"], "all lane values; an enumerated grid of operators x element types x lengths x five instruction sets",
 "Tests sample values and lengths, and only on the instruction sets of the test machine.",
 ["include/kfr/simd/operators.hpp", "include/kfr/simd/impl/basicoperators_clang.hpp", "include/kfr/simd/impl/basicoperators_generic.hpp", "include/kfr/simd/impl/abs.hpp", "include/kfr/simd/impl/min_max.hpp", "include/kfr/simd/impl/saturation.hpp", "include/kfr/simd/impl/select.hpp", "include/kfr/simd/impl/logical.hpp", "include/kfr/simd/impl/clamp.hpp"],
 [("per-arch implementations", "include/kfr/simd/impl/*.hpp")])
prop("S03", "Complex vector arithmetic satisfies the field identities exactly",
 "Complex multiplication, conjugation, multiplication by the imaginary unit, scaling, fused conjugate products and division of complex vectors compute, as real polynomials or rational functions of the components, exactly the textbook formulas for every element, length and instruction set; the elementary functions of a complex argument (exp, log, sin, cos, sinh, cosh, sqrt, abs, arg, polar and cartesian) are the textbook combinations of the corresponding real functions of its components.",
 ["inputs", "configurations"], "all component values over the reals; enumerated lengths and five instruction sets",
 "Tests evaluate a few constants.",
 ["include/kfr/simd/complex.hpp", "include/kfr/simd/impl/basicoperators_complex.hpp", "include/kfr/math/complex_math.hpp"],
 [("complex operators", "include/kfr/simd/impl/basicoperators_complex.hpp, include/kfr/simd/complex.hpp")])
prop("S04", "Horizontal reductions use every lane exactly once",
 "Every horizontal reduction (sum, product, dot product, minimum, maximum, bitwise and/or/xor, mean) combines every lane of its operand exactly once and nothing else, for every element type and length, including lengths that are not powers of two.",
 ["inputs", "configurations"], "all lane values; enumerated element types, lengths and instruction sets",
 "Tests sample values and lengths.",
 ["include/kfr/simd/horizontal.hpp"],
 [("recursive reduction", "include/kfr/simd/horizontal.hpp: horizontal_impl"), ("neutral elements", "include/kfr/simd/operators.hpp, min_max.hpp: initialvalue overloads")])
prop("S05", "Vector loads and stores touch exactly the requested elements, in order",
 "A vector load or store of N elements, aligned or not, plain, grouped, strided, gathered or scattered, reads or writes exactly the N named memory elements and no others, placing memory element k in lane k, for every element type, length and instruction set.",
 ["inputs", "configurations"], "all addresses; enumerated access kinds x element types x lengths x instruction sets",
 "Tests cannot see an over-wide access that stays inside the test's own buffer, and only run two instruction sets.",
 ["include/kfr/simd/read_write.hpp", "include/kfr/simd/impl/read_write.hpp", "include/kfr/simd/vec.hpp"],
 [("load/store recursion", "include/kfr/simd/impl/read_write.hpp"), ("gather/scatter", "include/kfr/simd/read_write.hpp")])
# ---------------------------------------------------------------- DSP
prop("F01", "Biquad cascades obey the difference equation for any block partition",
 "Processing a signal through a biquad cascade of any section count, in blocks of any width, computes for every sample exactly the cascade of second-order difference equations given by the coefficients, and carries state so that any partition of the signal into blocks gives the same result.",
 ["inputs", "histories", "configurations"], "all coefficients, states and inputs over the reals; enumerated section counts, vector widths and instruction sets",
 "Tests use a couple of fixed filters on one signal length and one or two instruction sets.",
 ["include/kfr/dsp/biquad.hpp", "src/dsp/biquad.cpp"],
 [("cascade step", "include/kfr/dsp/biquad.hpp: get_elements of expression_iir / biquad_process"), ("state", "include/kfr/dsp/biquad.hpp: biquad_state, iir_state")])
prop("F02", "Resetting a filter restores its initial state completely",
 "After a reset every stateful filter object (FIR, IIR, convolution) behaves exactly as when newly constructed with the same parameters: every piece of state that processing can change is restored.",
 ["histories"], "every filter class, every history of process calls before the reset",
 "Tests never reset a filter after processing and compare with a fresh one.",
 ["include/kfr/base/filter.hpp", "include/kfr/dsp/fir.hpp", "include/kfr/dsp/biquad.hpp", "include/kfr/dft/convolution.hpp", "src/dft/convolution-impl.cpp", "src/dsp/fir.cpp", "src/dsp/biquad.cpp"],
 [("reset overrides", "reset() of fir_filter, iir_filter, convolve_filter"), ("state written by processing", "process_buffer/process_expression overrides")])
prop("F03", "FIR, moving-sum and delay steps obey their definitions for any block width",
 "FIR filtering (short and general), moving sums and delay expressions compute for each sample exactly the convolution sum of the coefficients with the current and previous samples (respectively the sum of the last samples of the stated number, or the sample delayed by the stated amount), for any vector width in which the expression is evaluated, carrying history across calls.",
 ["inputs", "histories", "configurations"], "all coefficients, histories and inputs over the reals; enumerated tap counts, delays, widths and instruction sets",
 "Tests use one signal and default widths.",
 ["include/kfr/dsp/fir.hpp", "include/kfr/dsp/delay.hpp"],
 [("short FIR", "include/kfr/dsp/fir.hpp: expression_short_fir, expression_fir, expression_moving_sum"), ("delay", "include/kfr/dsp/delay.hpp: expression_delay")])
prop("F04", "Biquad designers return the bilinear transform of their analog prototypes",
 "For every frequency, quality and gain, each biquad design function returns coefficients whose digital transfer function equals the bilinear transform of the named analog second-order prototype, including every gain-dependent case.",
 ["inputs"], "all real frequency, Q and gain parameters, every branch of every designer, both precisions",
 "Tests check one or two numeric examples per designer.",
 ["include/kfr/dsp/biquad_design.hpp"],
 [("designers", "include/kfr/dsp/biquad_design.hpp: biquad_lowpass ... biquad_highshelf")])
# ---------------------------------------------------------------- memory
prop("M01", "Reference-counted storage is freed exactly once, when the last owner leaves",
 "A reference-counted block's count is changed only by atomic read-modify-write operations, the block is freed exactly when a release takes the count to zero and never before, and addref/release pairs balance over copies, moves and destruction of its owners.",
 ["schedules", "histories"], "every sequence and interleaving of addref/release on a shared block",
 "Tests use one thread and at most two owners.",
 ["include/kfr/cometa/memory.hpp", "src/capi/capi.cpp", "include/kfr/base/memory.hpp", "include/kfr/base/tensor.hpp"],
 [("counter protocol", "include/kfr/cometa/memory.hpp: aligned_add_ref, aligned_release")],
 state=[("refcount in block header", "number of owners", "include/kfr/cometa/memory.hpp")])
prop("M02", "The lock-free ring publishes data before indices in both directions",
 "The single-producer single-consumer ring buffer makes the producer's data visible before the index that announces it, makes the consumer finish reading before the index that frees the space, and lets each side modify only its own index, so a consumer never reads unwritten data and a producer never overwrites unread data under any interleaving or memory reordering.",
 ["schedules"], "all interleavings and permitted memory reorderings of one producer and one consumer",
 "Tests are single threaded and x86 hides missing ordering.",
 ["include/kfr/base/univector.hpp"],
 [("fences", "include/kfr/base/univector.hpp: lockfree_ring_buffer::enqueue/dequeue")])
# ---------------------------------------------------------------- expressions
prop("E01", "Begin and end notifications reach every sub-expression exactly once per pass",
 "Each time an expression is evaluated into an output, every sub-expression at any depth receives exactly one begin notification before and one end notification after its elements are produced, with the same bounds, whatever the number of dimensions.",
 ["programs", "inputs"], "every composite expression type and every evaluation path of the driver",
 "Tests evaluate expressions whose hooks are empty; a hook that is skipped for one composite type or one dimension count is invisible.",
 ["include/kfr/base/expression.hpp", "include/kfr/base/basic_expressions.hpp", "include/kfr/base/simd_expressions.hpp"],
 [("driver", "include/kfr/base/expression.hpp: process"), ("forwarding", "include/kfr/base/expression.hpp: begin_pass/end_pass for expression_with_arguments")])
prop("E02", "Expression elements do not depend on the vector width used to read them",
 "Reading N consecutive elements of an expression at once gives exactly the N values obtained by reading them one at a time, for every element index and supported width.",
 ["inputs", "programs"], "stateless expression kinds of the catalogue; all indices and data; enumerated widths",
 "Tests use the default width only.",
 ["include/kfr/base/basic_expressions.hpp", "include/kfr/base/simd_expressions.hpp", "include/kfr/base/expression.hpp"],
 [("get_elements overloads", "include/kfr/base/basic_expressions.hpp")])
# ---------------------------------------------------------------- IO
prop("I01", "Audio and file I/O never treats a failed operation as success",
 "Every open, seek, read, write and decoder call made by the audio readers and writers has its outcome examined: failures reach the caller as a short count, false or an empty format and never continue on uninitialised handles or data, and every opened decoder, encoder and file is released exactly once on every path.",
 ["fault_sequences"], "every reader/writer class; every I/O or decoder call failing at any point",
 "Tests never make a file operation or decoder call fail.",
 ["include/kfr/io/audiofile.hpp", "src/io/audiofile-impl.cpp", "include/kfr/io/file.hpp"],
 [("decoder calls", "include/kfr/io/audiofile.hpp: audio_reader_*/audio_writer_*")])
prop("I02", "Converting samples to integers saturates instead of overflowing",
 "Converting samples between any two sample formats, one at a time, as arrays with the format fixed or chosen at run time, or while interleaving or deinterleaving channels, scales by the ratio of the full scales and clamps to a representable full scale before truncating, so every value (including out-of-range, infinite and exactly full-scale ones) gives a representable result that never wraps, and each sample goes to its own place.",
 ["inputs"], "all sample values other than NaN; every pair of sample formats, every instruction set",
 "Tests convert a few in-range samples.",
 ["include/kfr/base/conversion.hpp"],
 [("conversion", "include/kfr/base/conversion.hpp: convert_sample, audio_sample_traits")])
prop("I03", "Loading a NPY file ends with data or an error status, never both or neither",
 "Loading a NPY file of arbitrary content terminates, reports success only if header and payload were read completely, and never reads outside the supplied bytes.",
 ["inputs", "fault_sequences"], "every byte sequence presented as a NPY file, every short read",
 "Tests load files written by the library itself.",
 ["include/kfr/base/npy.hpp"],
 [("parser", "include/kfr/base/npy.hpp: npy_* helpers"), ("loader", "include/kfr/base/npy.hpp: load_from_npy")])
# ---------------------------------------------------------------- numeric: declined
prop("N01", "Planned DFTs of every size are accurate to a few ulps times log size",
 "For every size, precision and direction the planned transform agrees with the exact discrete Fourier transform to within a small multiple of machine epsilon times the logarithm of the size, and the inverse undoes the forward transform up to scaling by the size.",
 ["inputs", "configurations"], "all sizes and inputs", "Tests sample sizes and random inputs with tolerances.",
 ["src/dft", "include/kfr/dft/fft.hpp"], [("stage selection", "src/dft/dft-fft.hpp: init_dft/init_fft")])
prop("N02", "Elementary functions stay within their documented error bounds",
 "Vectorised sine, cosine, exponential, logarithm, power, root, hyperbolic and inverse functions stay within their stated error bound of the exact result for every argument in range, and handle zeros, infinities and NaN as documented.",
 ["inputs"], "all floating-point arguments", "Tests sample arguments.",
 ["include/kfr/math"], [("approximations", "include/kfr/math/impl/*.hpp")])
prop("N03", "Block convolution equals direct convolution for any block split",
 "The FFT-based convolution filter outputs the linear convolution of its impulse response with the whole input history, whatever the sequence of block lengths in which the input is supplied.",
 ["inputs", "histories"], "all inputs and block-length sequences", "Tests use one or two splits.",
 ["src/dft/convolution-impl.cpp", "include/kfr/dft/convolution.hpp"], [("overlap-add", "src/dft/convolution-impl.cpp: convolve_filter::process_buffer")])
prop("N04", "Sample-rate conversion preserves signals up to its quality setting",
 "The resampler reproduces band-limited signals at the new rate within the stop-band attenuation and pass-band ripple of the selected quality, with the stated delay, for any block split.",
 ["inputs", "histories"], "all rates, qualities, signals and splits", "Tests check one sweep.",
 ["src/dsp/sample_rate_conversion.cpp", "include/kfr/dsp/sample_rate_conversion.hpp"], [("polyphase kernel", "src/dsp/sample_rate_conversion.cpp")])
prop("N05", "The loudness meter matches EBU R128 for every programme",
 "The loudness meter reports integrated, momentary and short-term loudness and loudness range as EBU R128/Tech 3341-3342 define them for any signal and channel layout.",
 ["inputs", "histories"], "all signals", "Tests check reference files.",
 ["include/kfr/dsp/ebu.hpp"], [("gating", "include/kfr/dsp/ebu.hpp")])
prop("N06", "Audio written and read back is the same audio",
 "Audio written by an audio writer and read back by the matching reader has the same length, format and samples up to the format's quantisation, after any sequence of partial reads, writes and seeks.",
 ["inputs", "histories"], "all signals, formats and call sequences", "Tests round-trip one short file.",
 ["include/kfr/io/audiofile.hpp"], [("codecs", "include/kfr/io/audiofile.hpp")])
prop("N07", "Scratch size reported by a plan suffices for every execution",
 "No execution of a plan, in any direction, in place or not, touches bytes of the scratch buffer beyond the size the plan reports.",
 ["inputs", "configurations"], "all sizes and plan kinds", "Tests cannot observe overrun within padding.",
 ["src/dft/dft-impl.hpp", "src/dft/dft-fft.hpp"], [("temp_size bookkeeping", "src/dft/dft-fft.hpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")

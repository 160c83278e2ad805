NA["N01"] = "Numerical accuracy of transforms of arbitrary size quantifies over runtime floating-point values and loop-carried twiddle computations; no sound static bound is in reach (the exact linear map of the fixed-size kernels is decided by D02)."
NA["N02"] = "Error bounds of polynomial approximations over all arguments need rounding-error analysis of each approximation (range reduction included) that no static analyser available here can carry out on this code."
NA["N03"] = "Equality with direct convolution over all block-length histories is a functional property of loops with runtime trip counts over floating-point data."
NA["N04"] = "Spectral quality of the resampler is a numerical property of runtime-designed filters."
NA["N05"] = "Conformance to EBU R128 is a numerical property of arbitrary signals."
NA["N06"] = "Round-trip equality through external codecs is a runtime-value property (error discipline of the same code is decided by I01)."
NA["N07"] = "Scratch extents are sums of runtime-selected stage sizes against loop bounds that depend on the plan's factorisation; no static bound in reach."

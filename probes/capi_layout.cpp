// Layout facts used by A03: offsets of the plan members the C API reports.
#include <kfr/dft.hpp>
#include <kfr/dsp.hpp>
#include <cstddef>
#pragma clang diagnostic ignored "-Winvalid-offsetof"
#define O(N, T, M) extern "C" const unsigned long N = __builtin_offsetof(T, M);
using cf = kfr::dft_plan<float>; using cd = kfr::dft_plan<double>;
using rf = kfr::dft_plan_real<float>; using rd = kfr::dft_plan_real<double>;
using mcf = kfr::dft_plan_md<float, kfr::dynamic_shape>; using mcd = kfr::dft_plan_md<double, kfr::dynamic_shape>;
using mrf = kfr::dft_plan_md_real<float, kfr::dynamic_shape>; using mrd = kfr::dft_plan_md_real<double, kfr::dynamic_shape>;
using tf = kfr::dct_plan<float>; using td = kfr::dct_plan<double>;
#define TWO(P) O(off_##P##_size, P, size) O(off_##P##_temp, P, temp_size)
TWO(cf) TWO(cd) TWO(rf) TWO(rd) TWO(mcf) TWO(mcd) TWO(mrf) TWO(mrd) TWO(tf) TWO(td)
extern "C" const unsigned long sizeof_sos_f = sizeof(kfr::biquad_section<float>);
extern "C" const unsigned long sizeof_sos_d = sizeof(kfr::biquad_section<double>);
extern "C" const unsigned long sizeof_tf = sizeof(tf);
extern "C" const unsigned long sizeof_td = sizeof(td);

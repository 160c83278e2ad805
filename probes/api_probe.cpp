// Instantiates the header-only part of the library widely, so that effect analyses see its code.
#include <kfr/all.hpp>
using namespace kfr;
#define API extern "C" __attribute__((used, visibility("default")))
template <typename T> using uv = univector<T>;
#define FOR_T(M) M(float, f32) M(double, f64)

#define FILTERS(T, S)                                                                                                  \
    API void ap_biquad_##S(biquad_filter<T>* f, T* o, const T* i, size_t n) { f->apply(o, i, n); f->apply(o, n); f->reset(); }          \
    API void ap_iirf_##S(iir_filter<T>* f, T* o, const T* i, size_t n) { f->apply(o, i, n); f->reset(); }                  \
    API void ap_firf_##S(fir_filter<T>* f, T* o, const T* i, size_t n) { f->apply(o, i, n); f->reset(); }                  \
    API void ap_conv_##S(convolve_filter<T>* f, T* o, const T* i, size_t n) { f->apply(o, i, n); f->reset(); }              \
    API void ap_convset_##S(convolve_filter<T>* f, const uv<T>* d) { f->set_data(*d); }                                    \
    API void ap_exprf_##S(expression_filter<T>* f, T* o, const T* i, size_t n) { f->apply(o, i, n); f->reset(); }           \
    API void ap_biqe_##S(uv<T>* o, const uv<T>* i, biquad_section<T>* bq) { *o = iir(*i, iir_params<T>(bq, 3)); } \
    API void ap_shortfir_##S(uv<T>* o, const uv<T>* i, const univector<T, 5>* t) { *o = short_fir(*i, *t); *o = fir(*i, *t); *o = moving_sum<16>(*i); } \
    API void ap_delay_##S(uv<T>* o, const uv<T>* i) { *o = delay<3>(*i); *o = delay<1>(*i); *o = fracdelay(*i, T(0.3)); } \
    API void ap_goertzel_##S(complex<T>* r, const uv<T>* i) { process(goertzel(*r, T(0.1)), *i, shape<1>(0), shape<1>(64)); }                            \
    API void ap_src_##S(samplerate_converter<T>* c, uv<T>* o, const uv<T>* i) { c->process(*o, *i); c->skip(3, i->slice()); } \
    API void ap_srcm_##S(samplerate_converter<T>* c) { *c = samplerate_converter<T>(resample_quality::high, 441, 480); }   \
    API void ap_firdes_##S(uv<T>* t, expression_handle<T>* w) { fir_lowpass(*t, T(0.1), *w); fir_highpass(*t, T(0.1), *w); fir_bandpass(*t, T(0.1), T(0.2), *w); fir_bandstop(*t, T(0.1), T(0.2), *w); } \
    API void ap_iirdes_##S(zpk<T>* z, iir_params<T>* p) { *z = iir_lowpass(butterworth<T>(4), 100, 48000); *z = iir_highpass(chebyshev1<T>(5, 1), 100, 48000); \
        *z = iir_bandpass(chebyshev2<T>(4, 40), 100, 200, 48000); *z = iir_bandstop(bessel<T>(5), 100, 200, 48000); new (p) iir_params<T>(to_sos(*z)); } \
    API void ap_iirz_##S(uv<T>* o, const uv<T>* i, zpk<T>* z) { *o = iir(*i, *z); }                                         \
    API void ap_bqdes_##S(biquad_section<T>* b, T f, T q) { b[0] = biquad_lowpass<T>(f, q); b[1] = biquad_highpass<T>(f, q); b[2] = biquad_bandpass<T>(f, q); b[3] = biquad_notch<T>(f, q); \
        b[4] = biquad_peak<T>(f, q, 3); b[5] = biquad_lowshelf<T>(f, 3); b[6] = biquad_highshelf<T>(f, 3); b[7] = biquad_allpass<T>(f, q); }
FOR_T(FILTERS)

#define GEN(T, S)                                                                                                      \
    API void ap_win_##S(uv<T>* o) { *o = window_hann<T>(64); *o = window_hamming<T>(64); *o = window_blackman<T>(64); *o = window_blackman_harris<T>(64); *o = window_kaiser<T>(64, 3.0); \
        *o = window_gaussian<T>(64); *o = window_flattop<T>(64); *o = window_bartlett<T>(64); *o = window_bartlett_hann<T>(64); *o = window_bohman<T>(64); *o = window_cosine<T>(64); \
        *o = window_lanczos<T>(64); *o = window_triangular<T>(64); *o = window_rectangular<T>(64); *o = window_cosine_np<T>(64); *o = window_planck_taper<T>(64, 0.1); *o = window_tukey<T>(64, 0.5); } \
    API void ap_rnd_##S(uv<T>* o, random_state* st) { *o = gen_random_range<T>(*st, 0, 1); *o = gen_random_normal<T>(*st); \
        *o = truncate(gen_random_range<T>(T(0), T(1)), 64); }                       \
    API void ap_gens_##S(uv<T>* o, uv<complex<T>>* c) { *o = truncate(gen_linear<T>(0, 1), 64); *o = truncate(gen_exp<T>(0, 1), 64); *o = truncate(gen_exp2<T>(0, 1), 64); *o = truncate(gen_sin<T>(0, 1), 64); \
        *c = truncate(gen_expj<T>(0, 1), 64); *o = truncate(counter(T(0), T(1)), 64); *o = truncate(linspace(T(0), T(1), 100), 64); *o = truncate(jaehne<T>(1, 64), 64); *o = truncate(swept<T>(1, 64), 64); } \
    API void ap_osc_##S(uv<T>* o) { *o = truncate(sine(phasor<T>(440, 48000)), 64); *o = truncate(square(phasor<T>(440, 48000)), 64); *o = truncate(sawtooth(phasor<T>(440, 48000)), 64); *o = truncate(triangle(phasor<T>(440, 48000)), 64); } \
    API T ap_red_##S(const uv<T>* a, const uv<T>* b) { return sum(*a) + mean(*a) + minof(*a) + maxof(*a) + absminof(*a) + absmaxof(*a) + dotproduct(*a, *b) + rms(*a) + sumsqr(*a) + product(*a); } \
    API void ap_hist_##S(const uv<T>* a, histogram_data<0>* h) { *h = histogram(*a, 10); }                          \
    API void ap_math_##S(uv<T>* o, const uv<T>* i) { *o = sin(*i) + cos(*i) * tan(*i); *o = exp(*i) + log(*i) + log10(*i) + exp2(*i) + log2(*i) + exp10(*i); *o = asin(*i) + acos(*i) + atan(*i) + atan2(*i, *i); \
        *o = sinh(*i) + cosh(*i) + tanh(*i) + coth(*i); *o = sqrt(*i) + cbrt(*i) + pow(*i, *i); *o = floor(*i) + ceil(*i) + round(*i) + trunc(*i) + fract(*i); *o = abs(*i) + sqr(*i) + cub(*i); \
        *o = kfr::min(*i, *i) + kfr::max(*i, *i); *o = kfr::clamp(*i, T(0), T(1)); *o = select(*i > T(0), *i, -*i); ; *o = amp_to_dB(*i) + dB_to_amp(*i) + note_to_hertz(*i) + hertz_to_note(*i); \
        *o = aweighting(*i) + bweighting(*i) + cweighting(*i); *o = waveshaper_tanh(*i, 2.0); *o = waveshaper_saturate_II(*i, 2.0); } \
    API void ap_expr_##S(uv<T>* o, const uv<T>* i) { *o = reverse(*i); *o = slice(*i, 1, 5); *o = concatenate(*i, *i); *o = padded(*i); *o = mixdown(*i, *i); \
        *o = fixshape(*i, fixed_shape<64>); *o = adjacent(fn::sub(), *i); } \
    API void ap_handle_##S(expression_handle<T>* h, uv<T>* o, const uv<T>* i) { *h = to_handle(*i + T(1)); *o = *h; *h = to_handle(uv<T>(*i) * T(2)); process(*o, *h, shape<1>(0), shape<1>(64)); } \
    API void ap_conv2_##S(uv<T>* o, const uv<T>* i) { *o = convolve(*i, *i); *o = correlate(*i, *i); *o = autocorrelate(*i); } \
    API void ap_fft_##S(uv<complex<T>>* o, const uv<complex<T>>* i, const uv<T>* r) { *o = dft(*i); *o = idft(*i); *o = realdft(*r); uv<T> q = irealdft(*i); dft_cache::instance().clear(); } \
    API void ap_lr_##S(ebu_r128<T>* e, uv<T>* i, T* m) { e->process_packet({ i[0], i[1] }); e->get_values(m[0], m[1], m[2], m[3], m[4]); e->reset(); *e = ebu_r128<T>(48000, { Speaker::Left, Speaker::Right }); } \
    API void ap_tensor_##S(tensor<T, 2>* t, tensor<T, 2>* u) { *t = *u + T(1); *t = u->transpose(); (*t)(0, 1) = 2; *t = (*u)(trange(1, 3), trange()); t->copy(); }
FOR_T(GEN)

API void ap_ringbuf(univector<float>* r) { size_t c = 0; float x = 0; r->ringbuf_write(c, &x, 1); r->ringbuf_read(c, &x, 1); r->ringbuf_step(c, 1); }
API float* ap_mem(size_t n) { float* q = aligned_allocate<float>(n); aligned_deallocate(q); q = cometa::details::aligned_malloc ? (float*)cometa::details::aligned_reallocate(q, n, 64) : q; return q; }
API const char* ap_ver() { return library_version(); }
API int ap_cpu(cpu_t c) { return (int)override_cpu(c) + (int)get_cpu(); }
API void ap_str(std::string* s, const univector<float>* x) { *s = as_string("a", 1, 2.0, std::string("q")); *s = format("{} {}", 1, 2); }
API double ap_sv(const cometa::special_value* v) { return v->get<double>(); }
API const char* ap_cpuname(cpu_t c) { return cpu_name(c); }

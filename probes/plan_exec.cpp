// Every public execute overload of every plan kind, wrapped in a function (plan, out, in, temp).
// Names: px_<kind>_<direction>_<overload>_<type>
#include <kfr/dft.hpp>
using namespace kfr;
#define API extern "C" __attribute__((used, visibility("default")))
#define FOR_T(M) M(float, f32) M(double, f64)
template <typename T> using uv = univector<T>;

#define CPLX(T, S)                                                                                               \
    API void px_dft_fwd_ptrbool_##S(const dft_plan<T>* p, complex<T>* o, const complex<T>* i, u8* t) { p->execute(o, i, t, false); } \
    API void px_dft_inv_ptrbool_##S(const dft_plan<T>* p, complex<T>* o, const complex<T>* i, u8* t) { p->execute(o, i, t, true); }  \
    API void px_dft_fwd_ptrdef_##S(const dft_plan<T>* p, complex<T>* o, const complex<T>* i, u8* t) { p->execute(o, i, t); }         \
    API void px_dft_fwd_ptrtag_##S(const dft_plan<T>* p, complex<T>* o, const complex<T>* i, u8* t) { p->execute(o, i, t, cfalse); } \
    API void px_dft_inv_ptrtag_##S(const dft_plan<T>* p, complex<T>* o, const complex<T>* i, u8* t) { p->execute(o, i, t, ctrue); }  \
    API void px_dft_fwd_uvbool_##S(const dft_plan<T>* p, uv<complex<T>>* o, const uv<complex<T>>* i, uv<u8>* t) { p->execute(*o, *i, *t, false); } \
    API void px_dft_inv_uvbool_##S(const dft_plan<T>* p, uv<complex<T>>* o, const uv<complex<T>>* i, uv<u8>* t) { p->execute(*o, *i, *t, true); } \
    API void px_dft_fwd_uvtag_##S(const dft_plan<T>* p, uv<complex<T>>* o, const uv<complex<T>>* i, uv<u8>* t) { p->execute(*o, *i, *t, cfalse); } \
    API void px_dft_inv_uvtag_##S(const dft_plan<T>* p, uv<complex<T>>* o, const uv<complex<T>>* i, uv<u8>* t) { p->execute(*o, *i, *t, ctrue); } \
    API void px_dft_fwd_uvptrbool_##S(const dft_plan<T>* p, uv<complex<T>>* o, const uv<complex<T>>* i, u8* t) { p->execute(*o, *i, t, false); } \
    API void px_dft_inv_uvptrbool_##S(const dft_plan<T>* p, uv<complex<T>>* o, const uv<complex<T>>* i, u8* t) { p->execute(*o, *i, t, true); } \
    API void px_dft_fwd_uvptrtag_##S(const dft_plan<T>* p, uv<complex<T>>* o, const uv<complex<T>>* i, u8* t) { p->execute(*o, *i, t, cfalse); } \
    API void px_dft_inv_uvptrtag_##S(const dft_plan<T>* p, uv<complex<T>>* o, const uv<complex<T>>* i, u8* t) { p->execute(*o, *i, t, ctrue); }
FOR_T(CPLX)

#define REAL(T, S)                                                                                               \
    API void px_real_fwd_ptrtag_##S(const dft_plan_real<T>* p, complex<T>* o, const T* i, u8* t) { p->execute(o, i, t); } \
    API void px_real_inv_ptrtag_##S(const dft_plan_real<T>* p, T* o, const complex<T>* i, u8* t) { p->execute(o, i, t); } \
    API void px_real_fwd_uv_##S(const dft_plan_real<T>* p, uv<complex<T>>* o, const uv<T>* i, uv<u8>* t) { p->execute(*o, *i, *t); } \
    API void px_real_inv_uv_##S(const dft_plan_real<T>* p, uv<T>* o, const uv<complex<T>>* i, uv<u8>* t) { p->execute(*o, *i, *t); } \
    API void px_real_fwd_uvptr_##S(const dft_plan_real<T>* p, uv<complex<T>>* o, const uv<T>* i, u8* t) { p->execute(*o, *i, t); } \
    API void px_real_inv_uvptr_##S(const dft_plan_real<T>* p, uv<T>* o, const uv<complex<T>>* i, u8* t) { p->execute(*o, *i, t); }
FOR_T(REAL)

#define MD1(T, S, D, DN)                                                                                         \
    API void px_md##DN##_fwd_ptrbool_##S(const dft_plan_md<T, D>* p, complex<T>* o, const complex<T>* i, u8* t) { p->execute(o, i, t, false); } \
    API void px_md##DN##_inv_ptrbool_##S(const dft_plan_md<T, D>* p, complex<T>* o, const complex<T>* i, u8* t) { p->execute(o, i, t, true); } \
    API void px_md##DN##_fwd_ptrtag_##S(const dft_plan_md<T, D>* p, complex<T>* o, const complex<T>* i, u8* t) { p->execute(o, i, t, cfalse); } \
    API void px_md##DN##_inv_ptrtag_##S(const dft_plan_md<T, D>* p, complex<T>* o, const complex<T>* i, u8* t) { p->execute(o, i, t, ctrue); } \
    API void px_mdreal##DN##_fwd_ptrtag_##S(const dft_plan_md_real<T, D>* p, complex<T>* o, const T* i, u8* t) { p->execute(o, i, t); } \
    API void px_mdreal##DN##_inv_ptrtag_##S(const dft_plan_md_real<T, D>* p, T* o, const complex<T>* i, u8* t) { p->execute(o, i, t); } \
    API void px_mdreal##DN##_fwd_ptrbool_##S(const dft_plan_md_real<T, D>* p, complex<T>* o, const T* i, u8* t) { p->execute(o, i, t, false); } \
    API void px_mdreal##DN##_inv_ptrbool_##S(const dft_plan_md_real<T, D>* p, T* o, const complex<T>* i, u8* t) { p->execute(o, i, t, true); }
#define MDT(T, S, D, DN)                                                                                         \
    API void px_md##DN##_fwd_tensor_##S(const dft_plan_md<T, D>* p, const tensor<complex<T>, D>* o, const tensor<complex<T>, D>* i, u8* t) { p->execute(*o, *i, t, false); } \
    API void px_md##DN##_inv_tensor_##S(const dft_plan_md<T, D>* p, const tensor<complex<T>, D>* o, const tensor<complex<T>, D>* i, u8* t) { p->execute(*o, *i, t, true); } \
    API void px_mdreal##DN##_fwd_tensor_##S(const dft_plan_md_real<T, D>* p, const tensor<complex<T>, D>* o, const tensor<T, D>* i, u8* t) { p->execute(*o, *i, t); } \
    API void px_mdreal##DN##_inv_tensor_##S(const dft_plan_md_real<T, D>* p, const tensor<T, D>* o, const tensor<complex<T>, D>* i, u8* t) { p->execute(*o, *i, t); }
#define MD(T, S) MD1(T, S, dynamic_shape, dyn) MD1(T, S, 2, 2) MD1(T, S, 3, 3) MDT(T, S, 2, 2) MDT(T, S, 3, 3)
FOR_T(MD)

#define DCT(T, S)                                                                                                \
    API void px_dct_fwd_ptrbool_##S(const dct_plan<T>* p, T* o, const T* i, u8* t) { p->execute(o, i, t, false); } \
    API void px_dct_inv_ptrbool_##S(const dct_plan<T>* p, T* o, const T* i, u8* t) { p->execute(o, i, t, true); } \
    API void px_dct_fwd_uvbool_##S(const dct_plan<T>* p, uv<T>* o, const uv<T>* i, uv<u8>* t) { p->execute(*o, *i, *t, false); } \
    API void px_dct_inv_uvbool_##S(const dct_plan<T>* p, uv<T>* o, const uv<T>* i, uv<u8>* t) { p->execute(*o, *i, *t, true); }
FOR_T(DCT)

// layout facts
#pragma clang diagnostic ignored "-Winvalid-offsetof"
#define OFFS(T, S)                                                                                               \
    extern "C" const unsigned long off_temp_dft_##S     = __builtin_offsetof(dft_plan<T>, temp_size);             \
    extern "C" const unsigned long off_temp_real_##S    = __builtin_offsetof(dft_plan_real<T>, temp_size);        \
    extern "C" const unsigned long off_temp_mddyn_##S   = __builtin_offsetof(dft_plan_md<T>, temp_size);          \
    extern "C" const unsigned long off_temp_md2_##S     = __builtin_offsetof(dft_plan_md<T COMMA 2>, temp_size);  \
    extern "C" const unsigned long off_temp_md3_##S     = __builtin_offsetof(dft_plan_md<T COMMA 3>, temp_size);  \
    extern "C" const unsigned long off_temp_mdrealdyn_##S = __builtin_offsetof(dft_plan_md_real<T>, temp_size);   \
    extern "C" const unsigned long off_temp_mdreal2_##S = __builtin_offsetof(dft_plan_md_real<T COMMA 2>, temp_size); \
    extern "C" const unsigned long off_temp_mdreal3_##S = __builtin_offsetof(dft_plan_md_real<T COMMA 3>, temp_size); \
    extern "C" const unsigned long off_temp_dct_##S     = __builtin_offsetof(dct_plan<T>, temp_size);
#define COMMA ,
FOR_T(OFFS)

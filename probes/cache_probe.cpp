// D04: instantiates every function of the plan cache and every user of it.
#include <cstddef>
#include <kfr/dft.hpp>
#include <kfr/dft/cache.hpp>
#include <kfr/dft/convolution.hpp>
namespace kfr
{
inline namespace CMT_ARCH_NAME
{
template struct dft_cache_impl<0>;
}
}
using namespace kfr;
#define OFF(name, ...) extern "C" const size_t d04_off_##name = __builtin_offsetof(__VA_ARGS__, size);
OFF(complex_float, dft_plan<float>)
OFF(complex_double, dft_plan<double>)
OFF(real_float, dft_plan_real<float>)
OFF(real_double, dft_plan_real<double>)

#ifdef D04_WITNESS
template <typename C, typename R>
constexpr bool is_get = std::is_same_v<decltype(std::declval<dft_cache_impl<0>&>().get(ctype_t<C>(), size_t(1))), std::shared_ptr<const R>>;
template <typename C, typename R>
constexpr bool is_getreal = std::is_same_v<decltype(std::declval<dft_cache_impl<0>&>().getreal(ctype_t<C>(), size_t(1))), std::shared_ptr<const R>>;
static_assert(is_get<float, dft_plan<float>>, "get(f32) must return an owning std::shared_ptr<const dft_plan<float>> by value");
static_assert(is_get<double, dft_plan<double>>, "get(f64) must return an owning std::shared_ptr<const dft_plan<double>> by value");
static_assert(is_getreal<float, dft_plan_real<float>>, "getreal(f32) must return an owning std::shared_ptr<const dft_plan_real<float>> by value");
static_assert(is_getreal<double, dft_plan_real<double>>, "getreal(f64) must return an owning std::shared_ptr<const dft_plan_real<double>> by value");
#endif

template <typename T>
void users(univector<complex<T>>& c, univector<T>& r)
{
    c = dft(c);
    c = idft(c);
    c = realdft(r);
    r = irealdft(c);
}
extern "C" void d04_users_f(univector<complex<float>>& c, univector<float>& r) { users<float>(c, r); }
extern "C" void d04_users_d(univector<complex<double>>& c, univector<double>& r) { users<double>(c, r); }

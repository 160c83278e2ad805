// Dispatch macros compiled for an arbitrary subset of enabled instruction sets.
#include <kfr/multiarch.h>
#include <kfr/runtime/cpuid_auto.hpp>
namespace kfr
{
CMT_MULTI_PROTO(namespace impl {
    int probe_ret(int a, const void* b, double c);
    void probe_void(void* a, const void* b);
})
int gate_ret(int a, const void* b, double c) { CMT_MULTI_GATE(return ns::impl::probe_ret(a, b, c)); }
void gate_void(void* a, const void* b) { CMT_MULTI_GATE(ns::impl::probe_void(a, b)); }
} // namespace kfr

#include <kfr/multiarch.h>
#include <kfr/runtime/cpuid_auto.hpp>
extern "C" __attribute__((used)) int cpu_probe() { return (int)kfr::internal_generic::detect_cpu<0>(); }
extern "C" __attribute__((used)) int cpu_current() { return (int)kfr::get_cpu(); }

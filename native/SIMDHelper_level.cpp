// The project's own detection code, run on a simulated processor and operating system: cpuid and xgetbv answer
// with the native values, masked with what VERIF_CPU_ECX1, VERIF_CPU_EBX7 and VERIF_CPU_XCR0 (hex) allow.
#include <cpuid.h>
#include <cstdlib>

extern "C" __attribute__((visibility("default"))) int verif_cpuid_calls = 0;

static unsigned verif_mask(const char *name) {
    const char *value = getenv(name);
    return value ? (unsigned) strtoul(value, nullptr, 16) : ~0u;
}

static int verif_get_cpuid_count(unsigned leaf, unsigned sub, unsigned *a, unsigned *b, unsigned *c, unsigned *d) {
    verif_cpuid_calls++;
    if (__get_cpuid_max(0, nullptr) < leaf) return 0;
    __cpuid_count(leaf, sub, *a, *b, *c, *d);
    if (leaf == 1) *c &= verif_mask("VERIF_CPU_ECX1");
    if (leaf == 7 && sub == 0) *b &= verif_mask("VERIF_CPU_EBX7");
    return 1;
}

static int verif_get_cpuid(unsigned leaf, unsigned *a, unsigned *b, unsigned *c, unsigned *d) {
    return verif_get_cpuid_count(leaf, 0, a, b, c, d);
}

static unsigned long long verif_xgetbv(unsigned index) {
    unsigned eax = 0, edx = 0;
    unsigned mask = verif_mask("VERIF_CPU_ECX1");
    if (!(mask & (1u << 27))) return 0;
    __asm__ volatile("xgetbv" : "=a"(eax), "=d"(edx) : "c"(index));
    return (((unsigned long long) edx << 32) | eax) & verif_mask("VERIF_CPU_XCR0");
}

#undef __cpuid
#undef __cpuid_count
#define __cpuid(leaf, a, b, c, d) verif_get_cpuid_count((leaf), 0, &(a), &(b), &(c), &(d))
#define __cpuid_count(leaf, sub, a, b, c, d) verif_get_cpuid_count((leaf), (sub), &(a), &(b), &(c), &(d))
#define __get_cpuid verif_get_cpuid
#define __get_cpuid_count verif_get_cpuid_count
#define __builtin_ia32_xgetbv verif_xgetbv
#define _xgetbv verif_xgetbv

#include "utils/simd/SIMDHelper.cpp"

// Found before the compiler's header: a processor without half float conversion.
#pragma once
#include_next <cpuid.h>
static inline int vfcCpuidWithoutF16C(unsigned leaf, unsigned* a, unsigned* b, unsigned* c, unsigned* d)
{
	int r = __get_cpuid(leaf, a, b, c, d);
	if (leaf == 1)
		*c &= ~(1u << 29);
	return r;
}
#define __get_cpuid vfcCpuidWithoutF16C

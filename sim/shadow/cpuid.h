/*
 * Stand-in for the compiler's <cpuid.h>: every CPUID execution of library code
 * becomes a call into the simulator.
 */
#ifndef SIM_SHADOW_CPUID_H
#define SIM_SHADOW_CPUID_H

#ifdef __cplusplus
extern "C" {
#endif
void sim_cpuid(unsigned leaf, unsigned subleaf, unsigned out[4]);
#ifdef __cplusplus
}
#endif

#define __cpuid_count(level, count, a, b, c, d)                    \
	do {                                                       \
		unsigned sim_regs_[4];                             \
		sim_cpuid((level), (count), sim_regs_);            \
		(a) = sim_regs_[0];                                \
		(b) = sim_regs_[1];                                \
		(c) = sim_regs_[2];                                \
		(d) = sim_regs_[3];                                \
	} while (0)

#define __cpuid(level, a, b, c, d) __cpuid_count((level), 0, a, b, c, d)

static __inline unsigned __get_cpuid_max(unsigned ext, unsigned* sig) {
	unsigned r[4];
	sim_cpuid(ext, 0, r);
	if (sig)
		*sig = r[1];
	return r[0];
}

static __inline int __get_cpuid_count(
	unsigned leaf, unsigned sub, unsigned* a, unsigned* b, unsigned* c, unsigned* d) {
	unsigned r[4];
	unsigned max = __get_cpuid_max(leaf & 0x80000000u, 0);
	if (max == 0 || max < leaf)
		return 0;
	sim_cpuid(leaf, sub, r);
	*a = r[0];
	*b = r[1];
	*c = r[2];
	*d = r[3];
	return 1;
}

static __inline int __get_cpuid(unsigned leaf, unsigned* a, unsigned* b, unsigned* c, unsigned* d) {
	return __get_cpuid_count(leaf, 0, a, b, c, d);
}

#endif

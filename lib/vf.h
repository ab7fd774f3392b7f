/* Dual harness support: the same harness text is a proof obligation for CBMC
 * (every input nondeterministic, every loop unwound completely) and a native
 * program (replays recorded inputs, or searches with random ones) for
 * confirming a counterexample against the really compiled code. */
#ifndef VF_H
#define VF_H
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>

#ifdef VF_CBMC
uint64_t nondet_vf_u64(void);
static inline uint64_t vf_in(const char *name, unsigned idx)
{
	uint64_t v = nondet_vf_u64();
	__CPROVER_input("vf", name, idx, v);
	return v;
}
#define VF_IN(name, idx, type) ({ type vf_v_ = (type)nondet_vf_u64(); \
	__CPROVER_input(name, (unsigned)(idx), (uint64_t)vf_v_); vf_v_; })
#define ASSUME(c)        __CPROVER_assume(c)
#define ENSURE(id, c)    __CPROVER_assert((c), "ensures:" id)
#define REACH(id)        __CPROVER_assert(0, "vf_reach:" id)
#define VF_LOG(...)      ((void)0)
#define VF_BV(n)         __CPROVER_bitvector[n]
#define VF_SBV(n)        __CPROVER_bitvector[n]
#else
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <sys/time.h>
#include <sys/resource.h>
extern jmp_buf vf_jmp;
uint64_t vf_native_in(const char *name, unsigned idx, unsigned bits);
void vf_fail(const char *id);
#define VF_IN(name, idx, type) ((type)vf_native_in(name, (unsigned)(idx), sizeof(type) * 8))
#define ASSUME(c)        do { if (!(c)) longjmp(vf_jmp, 1); } while (0)
#define ENSURE(id, c)    do { if (!(c)) vf_fail(id); } while (0)
#define REACH(id)        ((void)0)
#define VF_LOG(...)      do { if (vf_verbose) fprintf(stderr, __VA_ARGS__); } while (0)
extern int vf_verbose;
#endif

#define IN(type, name)            type name = VF_IN(#name, 0, type)
/* integer in [lo, hi] */
#define IN_RANGE(type, name, lo, hi) type name = VF_IN(#name, 0, type); VF_CLAMP(name, lo, hi)
#ifdef VF_CBMC
#define VF_CLAMP(name, lo, hi)    ASSUME(name >= (lo) && name <= (hi))
#else
#define VF_CLAMP(name, lo, hi)    do { if (!vf_replaying && !(name >= (lo) && name <= (hi))) { \
	__typeof__(name) vf_n_ = (hi) - (lo) + 1; name = vf_n_ == 0 ? name : (lo) + (__typeof__(name))((uint64_t)name % (uint64_t)vf_n_); vf_native_fix(#name, 0, (uint64_t)name); } \
	ASSUME(name >= (lo) && name <= (hi)); } while (0)
extern int vf_replaying;
void vf_native_fix(const char *name, unsigned idx, uint64_t v);
#endif

#ifdef VF_CBMC
#define VF_NATIVE_MAIN
#else
#define VF_NATIVE_MAIN \
int main(int argc, char **argv) { return vf_main(argc, argv, harness); }
int vf_main(int argc, char **argv, void (*h)(void));
#endif
#endif

/* Shared by every proof harness. */
#ifndef VF_H
#define VF_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <errno.h>
#define VF_ASSERT(c, m) __CPROVER_assert((c), "PROP " m)
#define VF_ASSUME(c) __CPROVER_assume(c)
/* vacuity guard: must be reachable, so this assertion must FAIL */
#define VF_REACH(m) __CPROVER_assert(0, "REACH " m)
unsigned nondet_vf_uint(void); size_t nondet_vf_size(void); _Bool nondet_vf_bool(void);
int nondet_vf_int(void); char nondet_vf_char(void); void *nondet_vf_ptr(void); long nondet_vf_long(void);
#define vf_uint nondet_vf_uint
#define vf_size nondet_vf_size
#define vf_bool nondet_vf_bool
#define vf_int nondet_vf_int
#define vf_char nondet_vf_char
#define vf_ptr nondet_vf_ptr
#define vf_long nondet_vf_long
#ifdef VF_BOUNDED
#define VF_MAXCOUNT ((unsigned)VF_BOUNDED)
#else
#define VF_MAXCOUNT (1u << 20)
#endif
static inline unsigned vf_count(void)
{
    unsigned n = vf_uint();
    __CPROVER_assume(n <= VF_MAXCOUNT);
    return n;
}
#endif

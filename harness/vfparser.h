/* Proof environment for the hand-written parser code: the real parser.c (or
 * quick_parser.c) with the generated leg run time, whose rule and action
 * functions alone are left out (mechanically), is included after this header.
 *   siglongjmp   ends the path, after the conditions of abort_parse are checked
 *   memcpy, memmove, realloc   exact on the witness byte K (arbitrary)
 */
#ifndef VFPARSER_H
#define VFPARSER_H
#include "vf.h"
#include <stdio.h>
#include <setjmp.h>
#include <assert.h>
static size_t K;                 /* witness byte offset, arbitrary */
static _Bool vf_may_abort, vf_alloc_failed;
static void vf_at_abort(void);
static void vf_abort(int e)
{
    __CPROVER_assert(e != 0, "PROP a parse is given up with an error number");
    __CPROVER_assert(vf_may_abort || vf_alloc_failed, "PROP a parse is given up only on failure");
    vf_at_abort();
    __CPROVER_assume(0);
}
#define siglongjmp(env, v) vf_abort(v)
#undef sigsetjmp
#define sigsetjmp(env, m) 0
static size_t vf_old_size;       /* readable size of what is reallocated */
static size_t vf_w = 1;          /* width of the witness */
#define VF_COPY1(d, s) do { if (vf_w == 1) { ((char *)(d))[K] = ((const char *)(s))[K]; } \
    else { *(void **)((char *)(d) + K) = *(void * const *)((const char *)(s) + K); } } while (0)
void *vf_realloc(void *p, size_t n)
{
    if (vf_bool()) { errno = ENOMEM; vf_alloc_failed = 1; return NULL; }
    char *q = __CPROVER_allocate(n, 0);
    if (vf_old_size >= vf_w && K <= vf_old_size - vf_w && n >= vf_w && K <= n - vf_w) { VF_COPY1(q, p); }
    free(p);
    return q;
}
void *vf_malloc(size_t n)
{
    if (vf_bool()) { errno = ENOMEM; vf_alloc_failed = 1; return NULL; }
    return __CPROVER_allocate(n, 0);
}
void *vf_memcpy(void *d, const void *s, size_t n)
{
    __CPROVER_precondition(n == 0 || __CPROVER_r_ok(s, n), "PROP copy source readable");
    __CPROVER_precondition(n == 0 || __CPROVER_w_ok(d, n), "PROP copy destination writable");
    __CPROVER_precondition(n == 0 || !__CPROVER_same_object(d, s) || (const char *)d + n <= (const char *)s || (const char *)s + n <= (const char *)d, "PROP copy areas disjoint");
    if (n >= vf_w && K <= n - vf_w) { VF_COPY1(d, s); }
    return d;
}
void *vf_memmove(void *d, const void *s, size_t n)
{
    __CPROVER_precondition(n == 0 || __CPROVER_r_ok(s, n), "PROP move source readable");
    __CPROVER_precondition(n == 0 || __CPROVER_w_ok(d, n), "PROP move destination writable");
    if (n >= vf_w && K <= n - vf_w) { char c = ((const char *)s)[K]; ((char *)d)[K] = c; }
    return d;
}
#define memcpy vf_memcpy
#define memmove vf_memmove
#define realloc vf_realloc
#define malloc vf_malloc
#endif

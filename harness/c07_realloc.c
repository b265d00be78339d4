/* cypher_astnode_detailstr_realloc: the description is whole, whatever its length.
 * snprintf_realloc (util.c) likewise (VF_WHAT 2). */
#include "vf.h"
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
#include "../../config.h"
#include "cypher-parser.h"
#include "astnode.h"
static size_t L; static _Bool g_err, g_oom, whole, err2; static size_t cap_; static void *buf_; static cypher_astnode_t a_; static unsigned calls;
static void *vf_realloc(void *p, size_t n)
{
    __CPROVER_assert(p == buf_ && !g_err, "PROP the buffer grows");
    if (vf_bool()) { g_oom = 1; return NULL; }
    whole = 0; cap_ = n; buf_ = __CPROVER_allocate(1, 0); return buf_;
}
#define realloc vf_realloc
/* contract of a description: the length is that of the text whatever the buffer, whole if there is room for more */
static ssize_t vf_describe(const cypher_astnode_t *a, char *s, size_t n)
{
    __CPROVER_assert(a == &a_ && s == (n ? buf_ : s) && n <= cap_, "PROP only the buffer is written");
    __CPROVER_assert(!g_err && !g_oom, "PROP nothing is written after a failure");
    calls++;
    if (vf_bool()) { g_err = 1; return -1; }
    whole = L < n;
    return (ssize_t)L;
}
#include <stdarg.h>
static int vf_vsnprintf(char *s, size_t n, const char *f) { return (int)vf_describe(&a_, s, n); }
#define vsnprintf(s, n, f, ap) vf_vsnprintf(s, n, f)
#if VF_WHAT == 1
#include "ast.c"
#else
#include "util.c"
#endif
void harness(void)
{
    L = vf_size(); VF_ASSUME(L <= (1u << 30)); cap_ = vf_size(); VF_ASSUME(cap_ >= 1); buf_ = __CPROVER_allocate(1, 0); g_err = g_oom = whole = 0; calls = 0;
    char *b = buf_; size_t c = cap_;
#if VF_WHAT == 1
    ssize_t r = cypher_astnode_detailstr_realloc(&a_, &b, &c);
#else
    ssize_t r = snprintf_realloc(&b, &c, "@%u", vf_uint());
#endif
    VF_ASSERT(b == buf_ && c == cap_, "the caller keeps the buffer and its size");
    if (g_err || g_oom) { VF_ASSERT(r == -1, "a failure is reported"); VF_REACH("failure"); }
    else { VF_ASSERT(r == (ssize_t)L && whole, "the text is whole"); VF_REACH("whole"); }
}

/* cp_result_merge_segment and the accessors of the real result.c */
#include "vf.h"
#include <assert.h>
#include "../../config.h"
#include "cypher-parser.h"
#include "errors.h"
#include "segment.h"
/* VF_WHAT: 1 errors, 2 roots, 3 directives: whose element K is the witness (counts and memory safety are in all) */
#define IS(n) (VF_WHAT == n)
static size_t BK;   /* witness byte of the errors */
static unsigned K, old_ne, old_nr, old_nd; static _Bool fails; static unsigned reallocs;
typedef cypher_parse_error_t perr; typedef cypher_astnode_t *node;
static cypher_parse_segment_t *S; static void *re, *rr, *rd; static void *se, *sr;
void *vf_realloc_errors(void *p, size_t n)
{
    if (vf_bool()) { fails = 1; errno = ENOMEM; return NULL; }
    __CPROVER_assert(p == re, "PROP only arrays of the result are enlarged");
    char *q = __CPROVER_allocate(n, 0);
    if (IS(1) && BK < (size_t)old_ne * sizeof(perr) && BK < n) { q[BK] = ((char *)re)[BK]; }
    free(re); re = NULL;
    return q;
}
void *vf_realloc_nodes(void *p, size_t n)
{
    if (vf_bool()) { fails = 1; errno = ENOMEM; return NULL; }
    _Bool isr = p == rr;
    __CPROVER_assert(isr || p == rd, "PROP only arrays of the result are enlarged");
    size_t m = n / sizeof(node); node *q = __CPROVER_allocate(m * sizeof(node), 0);
    if (isr) { if (IS(2) && K < old_nr && K < m) { q[K] = ((node *)rr)[K]; } free(rr); rr = NULL; }
    else { if (IS(3) && K < old_nd && K < m) { q[K] = ((node *)rd)[K]; } free(rd); rd = NULL; }
    return q;
}
void *vf_memcpy_errors(void *d, const void *s, size_t n)
{
    __CPROVER_precondition(n == 0 || (__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n)), "PROP copies within bounds");
    __CPROVER_assert(s == se, "PROP what the segment holds is taken over");
    size_t o = (size_t)old_ne * sizeof(perr);
    if (IS(1) && BK >= o && BK - o < n) { ((char *)d)[BK - o] = ((const char *)se)[BK - o]; }
    return d;
}
void *vf_memcpy_roots(void *d, const void *s, size_t n)
{
    __CPROVER_precondition(n == 0 || (__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n)), "PROP copies within bounds");
    __CPROVER_assert(s == sr, "PROP what the segment holds is taken over");
    size_t i = (size_t)K - old_nr;
    if (IS(2) && K >= old_nr && i < n / sizeof(node)) { ((node *)d)[i] = ((const node *)sr)[i]; }
    return d;
}
#define realloc(p, n) _Generic((p), perr *: vf_realloc_errors, default: vf_realloc_nodes)(p, n)
#define memcpy(d, s, n) _Generic((d), perr *: vf_memcpy_errors, default: vf_memcpy_roots)(d, s, n)
#include "result.c"
#undef realloc
#undef memcpy
void harness(void)
{
    cypher_parse_result_t r, r0; cypher_parse_segment_t s, s0;
    K = vf_uint();
    old_ne = vf_count(); old_nr = vf_count(); old_nd = vf_count();
    unsigned cap = vf_count(), sn = vf_count(), sr_ = vf_count();
    VF_ASSUME(old_nd <= cap);
    size_t eb0 = (size_t)old_ne * sizeof(perr), eb1 = (size_t)sn * sizeof(perr); re = __CPROVER_allocate(eb0, 0); rr = malloc(old_nr * sizeof(node)); rd = malloc(cap * sizeof(node)); se = __CPROVER_allocate(eb1, 0); sr = malloc(sr_ * sizeof(node));
    r.errors = re; r.nerrors = old_ne; r.roots = rr; r.nroots = old_nr; r.directives = rd; r.ndirectives = old_nd; r.directives_cap = cap;
    static char m, a, dd;
    r.eof = vf_bool(); r.nnodes = vf_uint();
    s.errors = se; s.nerrors = sn; s.roots = sr; s.nroots = sr_; s.directive = vf_bool() ? (node)&dd : NULL; s.eof = vf_bool(); s.nnodes = vf_uint();
    node wr = (node)&a;
    BK = vf_size(); size_t oe = (size_t)old_ne * sizeof(perr), ee = oe + (size_t)sn * sizeof(perr); char wb = 0;
    if (IS(1)) { if (BK < oe) { wb = ((char *)re)[BK]; } else if (BK < ee) { wb = ((char *)se)[BK - oe]; } }
    if (!IS(2)) {} else if (K < old_nr) { r.roots[K] = wr; } else if (K - old_nr < sr_) { s.roots[K - old_nr] = wr; }
    node wd = (node)&m; if (IS(3) && K < old_nd) { r.directives[K] = wd; }
    r0 = r; s0 = s; S = &s;
    int x = cp_result_merge_segment(&r, &s);
    VF_ASSERT(x == 0 || (x == -1 && fails), "fails only when out of memory");
    VF_ASSERT(x != 0 || !fails, "running out of memory is reported");
    /* nothing is held twice or lost, whatever happens */
    VF_ASSERT((r.nerrors == old_ne && s.nerrors == sn) || (r.nerrors == old_ne + sn && s.nerrors == 0), "each error is held once");
    VF_ASSERT((r.nroots == old_nr && s.nroots == sr_) || (r.nroots == old_nr + sr_ && s.nroots == 0), "each tree is held once");
    VF_ASSERT(s.errors == s0.errors && s.roots == s0.roots, "the arrays of the segment stay its own");
    VF_ASSERT(r.nerrors == 0 || __CPROVER_r_ok(r.errors, r.nerrors * sizeof(perr)), "errors backed by memory");
    VF_ASSERT(r.nroots == 0 || __CPROVER_r_ok(r.roots, r.nroots * sizeof(node)), "roots backed by memory");
    VF_ASSERT(r.directives_cap == 0 || __CPROVER_r_ok(r.directives, r.directives_cap * sizeof(node)), "directives backed by memory");
#if VF_WHAT == 1
    if (BK < (size_t)r.nerrors * sizeof(perr)) { VF_ASSERT(((char *)r.errors)[BK] == wb, "errors are kept and appended in order"); VF_REACH("error byte"); }
    if (K < r.nerrors) { const cypher_parse_error_t *g = cypher_parse_result_get_error(&r, K); VF_ASSERT(g == &r.errors[K], "error accessor"); VF_REACH("error"); }
    else { VF_ASSERT(cypher_parse_result_get_error(&r, K) == NULL, "no error beyond the end"); }
#endif
#if VF_WHAT == 2
    if (K < r.nroots) { VF_ASSERT(r.roots[K] == wr && cypher_parse_result_get_root(&r, K) == wr, "roots are kept and appended in order"); VF_REACH("root"); }
    else { VF_ASSERT(cypher_parse_result_get_root(&r, K) == NULL, "no root beyond the end"); }
#endif
    VF_ASSERT(cypher_parse_result_nerrors(&r) == r.nerrors && cypher_parse_result_nroots(&r) == r.nroots && cypher_parse_result_ndirectives(&r) == r.ndirectives && cypher_parse_result_nnodes(&r) == r.nnodes && cypher_parse_result_eof(&r) == r.eof, "count accessors");
    if (x == 0)
    {
        VF_ASSERT(r.nerrors == old_ne + sn && r.nroots == old_nr + sr_ && r.nnodes == r0.nnodes + s0.nnodes, "counts are added up");
        VF_ASSERT(r.ndirectives == old_nd + (s0.directive != NULL), "a directive is added if there is one");
#if VF_WHAT == 3
        if (K < old_nd) { VF_ASSERT(r.directives[K] == wd && cypher_parse_result_get_directive(&r, K) == wd, "earlier directives kept in order"); }
        if (s0.directive != NULL) { VF_ASSERT(r.directives[old_nd] == s0.directive && cypher_parse_result_get_directive(&r, old_nd) == s0.directive, "the directive is added last"); VF_REACH("directive"); }
#endif
        VF_ASSERT(cypher_parse_result_get_directive(&r, r.ndirectives) == NULL, "no directive beyond the end");
        VF_ASSERT(r.eof == (r0.eof || (s0.eof && (s0.directive != NULL || s0.nerrors > 0))), "the end of input is reported if a segment holding something reached it");
        VF_REACH("merged");
    }
}

/* cypher_ast_fprint, cypher_ast_fprintv: the columns fit the whole forest, each tree is written once in order */
#include "vf.h"
#include <stdio.h>
#include <errno.h>
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <limits.h>
#include "../../config.h"
#include "astnode.h"
#include "cypher-parser.h"
static FILE *S_; static struct cypher_parser_colorization C_, none_; static _Bool useC; static unsigned n, calls, wcalls, W, RW_, mo, mn, nfree, nalloc; static size_t ms, me; static _Bool g_fail, seen, wseen; static cypher_astnode_t w_; static char buf_[1];
static size_t msz;
int vf_node(const cypher_astnode_t *, FILE *, const struct cypher_parser_colorization *, char **, size_t *, unsigned, unsigned, unsigned, unsigned, unsigned, unsigned);
void vf_widths(const cypher_astnode_t *, unsigned *, size_t *, size_t *, unsigned *, unsigned);
/* the number of decimal digits, an independent definition */
static unsigned digits(size_t x) { return 1 + (x >= 10ull) + (x >= 100ull) + (x >= 1000ull) + (x >= 10000ull) + (x >= 100000ull) + (x >= 1000000ull) + (x >= 10000000ull) + (x >= 100000000ull) + (x >= 1000000000ull) + (x >= 10000000000ull) + (x >= 100000000000ull) + (x >= 1000000000000ull) + (x >= 10000000000000ull) + (x >= 100000000000000ull) + (x >= 1000000000000000ull) + (x >= 10000000000000000ull) + (x >= 100000000000000000ull) + (x >= 1000000000000000000ull) + (x >= 10000000000000000000ull); }
/* contract of log10: its whole part is the number of digits less one (of 0: what the conversion of -inf gives here) */
static double vf_log10(size_t x) { return (double)(digits(x) - 1); }
static void *vf_malloc(size_t s) { if (vf_bool()) { g_fail = 1; return NULL; } nalloc++; msz = s; return buf_; }
static void vf_free(void *p) { __CPROVER_assert(p == buf_, "PROP the buffer is released"); nfree++; }
#define log10 vf_log10
#define malloc vf_malloc
#define free vf_free
#include "ast.c"
#define MAX(a, b) ((a) > (b) ? (a) : (b))
void vf_widths(const cypher_astnode_t *a, unsigned *o, size_t *s, size_t *e, unsigned *m, unsigned d)
{
    __CPROVER_assert(d == 0 && (wcalls != W || a == &w_) && calls == 0, "PROP every tree counts before any is written");
    __CPROVER_assert(*o == mo && *s == ms && *e == me && *m == mn, "PROP on from the trees before");
    if (wcalls == W) { wseen = 1; }
    wcalls++;
    *o = mo = MAX(mo, vf_uint()); *s = ms = MAX(ms, vf_size()); *e = me = MAX(me, vf_size()); *m = mn = MAX(mn, vf_uint());
    VF_ASSUME(ms < 1000000000000000000ull && me < 1000000000000000000ull);
}
int vf_node(const cypher_astnode_t *a, FILE *s, const struct cypher_parser_colorization *c, char **b, size_t *bc, unsigned rw, unsigned ow, unsigned sw, unsigned ew, unsigned nw, unsigned d)
{
    __CPROVER_assert(!g_fail, "PROP nothing is written after a failure");
    __CPROVER_assert(calls != W || a == &w_, "PROP trees in order");
    __CPROVER_assert(s == S_ && c == (useC ? &C_ : &none_) && *b == buf_ && *bc <= msz && rw == RW_ && d == 0, "PROP as asked for");
    __CPROVER_assert(ow == digits(mo) + 1 && sw == digits(ms) && ew == digits(me) && nw == mn, "PROP columns as wide as the widest of the forest");
    if (calls == W) { seen = 1; }
    calls++;
    if (vf_bool()) { g_fail = 1; return -1; }
    return 0;
}
const struct cypher_parser_colorization *cypher_parser_no_colorization;
void harness(void)
{
    cypher_parser_no_colorization = &none_; useC = vf_bool(); RW_ = vf_uint(); static char s_; S_ = (FILE *)&s_;
    n = vf_count(); W = vf_uint(); calls = wcalls = nfree = nalloc = 0; g_fail = seen = wseen = 0; mo = mn = 0; ms = me = 0;
#if VF_WHAT == 1
    n = 1; W = 0;
    int r = cypher_ast_fprint(&w_, S_, RW_, useC ? &C_ : NULL, vf_uint());
#else
    cypher_astnode_t **as = __CPROVER_allocate((size_t)n * sizeof(*as), 0); if (W < n) { as[W] = &w_; }
    int r = cypher_ast_fprintv(as, n, S_, RW_, useC ? &C_ : NULL, vf_uint());
#endif
    VF_ASSERT((r == 0) == !g_fail && (r == 0 || r == -1), "a failure is reported");
    VF_ASSERT(nfree == nalloc, "the buffer is released");
    VF_ASSERT(wcalls == n && (W >= n || wseen), "every tree counts for the columns");
    if (r == 0) { VF_ASSERT(calls == n && (W >= n || seen), "every tree is written, once"); VF_REACH("written"); }
    else { VF_REACH("failed"); }
}

/* cypher_parse_segment: holds what it is given; trees are numbered one after the other */
#include "vf.h"
#include "../../config.h"
#include "segment.h"
#include "ast.h"
#include "errors.h"
#include "util.h"
#include <assert.h>
#define IS(n) (VF_WHAT == n)
static size_t BK;   /* witness byte of the errors */
static unsigned K, calls, cur; static cypher_astnode_t *wroot, **the_roots; static cypher_parse_error_t *the_errors; static _Bool seen, fails;
static unsigned live; static cypher_parse_segment_t *seg;
unsigned vf_set_ordinals(cypher_astnode_t *c, unsigned n)
{
    __CPROVER_assert(n == cur, "PROP numbering goes on where the tree before ended");
    __CPROVER_assert(!IS(2) || calls != K || c == wroot, "PROP trees are numbered in order");
    seen |= calls == K;
    unsigned s = vf_uint(); cur = n + s; calls++;
    return cur;
}
void *vf_calloc(size_t n, size_t s) { if (vf_bool()) { fails = 1; errno = ENOMEM; return NULL; } __CPROVER_assert(n * s == sizeof(cypher_parse_segment_t), "PROP room for the segment"); live++; return __CPROVER_allocate(sizeof(cypher_parse_segment_t), 1); }
void *vf_mdup_errors(const void *p, size_t n)
{
    if (n == 0) { return NULL; }
    __CPROVER_assert(p == (void *)the_errors, "PROP copies what it is given");
    if (vf_bool()) { fails = 1; errno = ENOMEM; return NULL; }
    live++;
    char *q = __CPROVER_allocate(n, 0); if (IS(1) && BK < n) { q[BK] = ((char *)the_errors)[BK]; }
    return q;
}
void *vf_mdup_roots(const void *p, size_t n)
{
    if (n == 0) { return NULL; }
    __CPROVER_assert(p == (void *)the_roots, "PROP copies what it is given");
    if (vf_bool()) { fails = 1; errno = ENOMEM; return NULL; }
    live++;
    size_t m = n / sizeof(cypher_astnode_t *);
    cypher_astnode_t **q = __CPROVER_allocate(m * sizeof(cypher_astnode_t *), 0); if (IS(2) && K < m) { q[K] = the_roots[K]; }
    return q;
}
void vf_free(void *p) { if (p != NULL) { __CPROVER_assert(live > 0, "PROP released once"); live--; free(p); } }
#define cypher_ast_set_ordinals vf_set_ordinals
#define calloc vf_calloc
#define mdup(p, n) _Generic((p), cypher_parse_error_t *: vf_mdup_errors, default: vf_mdup_roots)(p, n)
#define free vf_free
#include "segment.c"
#undef free
void harness(void)
{
    K = vf_uint(); unsigned ne = vf_count(), nr = vf_count(), ord = vf_uint();
    size_t eb = (size_t)ne * sizeof(cypher_parse_error_t); the_errors = __CPROVER_allocate(eb, 0); the_roots = malloc(nr * sizeof(cypher_astnode_t *));
    static char w, m; wroot = (cypher_astnode_t *)&w;
    if (IS(2) && K < nr) { the_roots[K] = wroot; }
    BK = vf_size(); char wb = 0; if (IS(1) && BK < (size_t)ne * sizeof(cypher_parse_error_t)) { wb = ((char *)the_errors)[BK]; }
    struct cypher_input_range range; const cypher_astnode_t *dir = vf_ptr(); _Bool eof = vf_bool();
    calls = 0; cur = ord; seen = 0; fails = 0; live = 0; errno = 0;
    seg = cypher_parse_segment(ord, range, the_errors, ne, the_roots, nr, dir, eof);
    if (seg == NULL) { VF_ASSERT(fails && errno == ENOMEM && live == 0 && calls == 0, "fails only when out of memory, leaving nothing behind"); VF_REACH("failed"); return; }
    VF_ASSERT(!fails && seg->refcount == 1, "a new segment is held once");
    VF_ASSERT(calls == nr && seg->nnodes == cur - ord, "the nodes of all trees are counted");
    struct cypher_input_range g = cypher_parse_segment_get_range(seg);
    VF_ASSERT(g.start.offset == range.start.offset && g.end.offset == range.end.offset && g.start.line == range.start.line && g.start.column == range.start.column && g.end.line == range.end.line && g.end.column == range.end.column, "range");
    VF_ASSERT(cypher_parse_segment_nerrors(seg) == ne && cypher_parse_segment_nroots(seg) == nr && cypher_parse_segment_nnodes(seg) == cur - ord, "counts");
    VF_ASSERT(cypher_parse_segment_get_directive(seg) == dir && cypher_parse_segment_is_eof(seg) == eof, "directive and end of input");
    const cypher_parse_error_t *e = cypher_parse_segment_get_error(seg, K);
#if VF_WHAT == 1
    if (BK < (size_t)ne * sizeof(cypher_parse_error_t)) { VF_ASSERT(((char *)seg->errors)[BK] == wb && seg->errors != the_errors, "errors are kept, in order, in storage of its own"); VF_REACH("error byte"); }
    if (K < ne) { VF_ASSERT(e == seg->errors + K, "error accessor"); VF_REACH("error"); }
    else { VF_ASSERT(e == NULL, "no error beyond the end"); }
#else
    if (K < nr) { VF_ASSERT(cypher_parse_segment_get_root(seg, K) == wroot && seen && seg->roots != the_roots, "roots, in order, in storage of its own"); VF_REACH("root"); }
    else { VF_ASSERT(cypher_parse_segment_get_root(seg, K) == NULL, "no root beyond the end"); }
#endif
}

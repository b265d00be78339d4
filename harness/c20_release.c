/* retain and release of a segment: what it holds is released exactly once, by the last release */
#include "vf.h"
#include "../../config.h"
#include "segment.h"
#include "ast.h"
static unsigned released_e, released_r, freed_e, freed_r, freed_s; static cypher_parse_segment_t *S; static struct cypher_parse_segment s0;
void vf_errs(cypher_parse_error_t *e, unsigned n) { __CPROVER_assert(e == s0.errors && n == s0.nerrors && !freed_e, "PROP its errors are released"); released_e++; }
void vf_roots(cypher_astnode_t * const *a, unsigned n) { __CPROVER_assert(a == s0.roots && n == s0.nroots && !freed_r, "PROP its trees are released"); released_r++; }
void vf_free(void *p)
{
    if (p == NULL) { return; }
    if (p == (void *)s0.errors) { freed_e++; __CPROVER_assert(released_e == 1, "PROP errors are released before their array"); }
    else if (p == (void *)s0.roots) { freed_r++; __CPROVER_assert(released_r == 1, "PROP trees are released before their array"); }
    else { __CPROVER_assert(p == (void *)S, "PROP only its own memory is released"); freed_s++; }
    free(p);
}
#define cp_errors_vcleanup vf_errs
#define cypher_ast_vfree vf_roots
#define free vf_free
#include "segment.c"
#undef free
void harness(void)
{
    cypher_parse_segment_release(NULL);
    S = malloc(sizeof(*S));
    unsigned ne = vf_count(), nr = vf_count();
    S->errors = ne ? malloc(ne * sizeof(cypher_parse_error_t)) : NULL; S->nerrors = ne;
    S->roots = nr ? malloc(nr * sizeof(cypher_astnode_t *)) : NULL; S->nroots = nr;
    VF_ASSUME(S->refcount >= 1 && S->refcount < (1u << 30));
    s0 = *S;
    if (vf_bool())
    {
        cypher_parse_segment_retain(S);
        VF_ASSERT(S->refcount == s0.refcount + 1, "retained once more");
        VF_REACH("retain");
    }
    else
    {
        cypher_parse_segment_release(S);
        if (s0.refcount == 1) { VF_ASSERT(released_e == 1 && released_r == 1 && freed_s == 1 && freed_e == (ne > 0) && freed_r == (nr > 0), "the last release gives up everything, once"); VF_REACH("last"); return; }
        VF_ASSERT(S->refcount == s0.refcount - 1 && !released_e && !released_r && !freed_e && !freed_r && !freed_s, "an earlier release gives up nothing");
        VF_REACH("release");
    }
    VF_ASSERT(S->errors == s0.errors && S->nerrors == s0.nerrors && S->roots == s0.roots && S->nroots == s0.nroots && S->nnodes == s0.nnodes && S->directive == s0.directive && S->eof == s0.eof && S->range.start.offset == s0.range.start.offset && S->range.end.offset == s0.range.end.offset, "what is held is unchanged");
}

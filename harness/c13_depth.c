/* cypher_ast_depth: one more than the deepest child */
#include "vf.h"
#include "../../config.h"
#include "astnode.h"
static unsigned K, calls, mx, dK; static cypher_astnode_t *wchild; static cypher_astnode_t **the_children;
unsigned vf_rec(const cypher_astnode_t *c)
{
    __CPROVER_assert(calls != K || c == wchild, "PROP every child is looked at");
    unsigned d = vf_uint(); VF_ASSUME(d >= 1 && d <= (1u << 30));
    if (calls == K) { dK = d; }
    if (d > mx) { mx = d; }
    calls++;
    return d;
}
#include "ast.c"
void harness(void)
{
    K = vf_uint(); unsigned nc = vf_count();
    cypher_astnode_t *a = __CPROVER_allocate(sizeof(*a), 0);
    the_children = __CPROVER_allocate((size_t)nc * sizeof(*the_children), 0);
    static cypher_astnode_t w; wchild = &w;
    if (K < nc) { the_children[K] = wchild; }
    a->children = the_children; a->nchildren = nc;
    calls = 0; mx = 0; dK = 0;
    unsigned r = cypher_ast_depth(a);
    VF_ASSERT(calls == nc && r == mx + 1, "the depth is one more than the greatest depth of a child");
    if (K < nc) { VF_ASSERT(r > dK, "no child is as deep"); VF_REACH("child"); }
}

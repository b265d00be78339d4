/* cypher_ast_set_ordinals: a node is numbered before its children, these one after the other */
#include "vf.h"
#include "../../config.h"
#include "astnode.h"
static unsigned K, calls, cur; static _Bool seen; static cypher_astnode_t *wchild; static cypher_astnode_t **the_children;
/* contract of the recursive call: numbers a subtree of some size from n on */
unsigned vf_rec(cypher_astnode_t *c, unsigned n)
{
    __CPROVER_assert(n == cur, "PROP numbering goes on where the part before ended");
    __CPROVER_assert(calls != K || c == wchild, "PROP children are numbered in order");
    seen |= calls == K;
    unsigned s = vf_uint(); VF_ASSUME((c == NULL) == (s == 0));
    cur = n + s; calls++;
    return cur;
}
#include "ast.c"
void harness(void)
{
    K = vf_uint(); unsigned nc = vf_count(), n0 = vf_uint();
    cypher_astnode_t *a = __CPROVER_allocate(sizeof(*a), 0), a0;
    the_children = __CPROVER_allocate((size_t)nc * sizeof(*the_children), 0);
    static cypher_astnode_t w; wchild = vf_bool() ? &w : NULL;
    if (K < nc) { the_children[K] = wchild; }
    a->children = the_children; a->nchildren = nc; a0 = *a;
    VF_ASSERT(cypher_ast_set_ordinals(NULL, n0) == n0, "no tree, no number");
    calls = 0; cur = n0 + 1; seen = 0;
    unsigned r = cypher_ast_set_ordinals(a, n0);
    VF_ASSERT(a->ordinal == n0, "the node gets the first number");
    VF_ASSERT(r == cur && calls == nc, "every child is numbered once and the next free number is returned");
    if (K < nc) { VF_ASSERT(seen && the_children[K] == wchild, "child numbered"); VF_REACH("child"); }
    VF_ASSERT(a->type == a0.type && a->children == a0.children && a->nchildren == nc && a->range.start.offset == a0.range.start.offset && a->range.end.offset == a0.range.end.offset && a->annotations == a0.annotations, "nothing but the number changes");
}

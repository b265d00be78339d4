/* cypher_astnode_init, mdup, child_index, nchildren, get_child, release */
#include "vf.h"
#include <stdlib.h>
#include <string.h>
#include "../../config.h"
static unsigned K, n, nfreed; static _Bool failed; static void *freedp; static void **made;
void *vf_malloc(size_t s)
{
    __CPROVER_assert(s == (size_t)n * sizeof(void *), "PROP memory for all children");
    if (vf_bool()) { failed = 1; errno = ENOMEM; return NULL; }
    made = __CPROVER_allocate((size_t)n * sizeof(void *), 0); return made;
}
void *vf_memcpy(void *d, const void *s, size_t k)
{
    __CPROVER_precondition(k == 0 || __CPROVER_r_ok(s, k), "PROP copy source readable");
    __CPROVER_precondition(k == 0 || __CPROVER_w_ok(d, k), "PROP copy destination writable");
    if ((size_t)K * sizeof(void *) + sizeof(void *) <= k) { ((void **)d)[K] = ((void **)s)[K]; }
    return d;
}
static void vf_free(void *p) { nfreed++; freedp = p; }
#include <errno.h>
#define malloc vf_malloc
#define memcpy vf_memcpy
#define free vf_free
#include "util.h"
#include "astnode.h"
#include "ast.c"
#undef free
#define EQP(a, b) ((a).offset == (b).offset && (a).line == (b).line && (a).column == (b).column)
void harness(void)
{
    n = vf_count(); K = vf_uint(); failed = 0; nfreed = 0; made = NULL;
    static cypher_astnode_t w; cypher_astnode_t **ch = __CPROVER_allocate((size_t)n * sizeof(*ch), 0); if (K < n) { ch[K] = &w; }
    cypher_astnode_t t, t0; struct cypher_input_range r; uint8_t ty = vf_uint(); t0 = t;
#if VF_WHAT == 1
    int x = cypher_astnode_init(&t, ty, n > 0 || vf_bool() ? ch : NULL, n, r);
    VF_ASSERT((x == 0) == !failed && (x == 0 || x == -1), "it fails only for want of memory");
    VF_ASSERT(t.annotations == t0.annotations && t.ordinal == t0.ordinal, "nothing else is set");
    if (x == 0)
    {
        VF_ASSERT(t.type == ty && EQP(t.range.start, r.start) && EQP(t.range.end, r.end) && t.nchildren == n, "type, range and number of children");
        VF_ASSERT(cypher_astnode_type(&t) == ty && cypher_astnode_nchildren(&t) == n && EQP(cypher_astnode_range(&t).start, r.start) && EQP(cypher_astnode_range(&t).end, r.end), "as reported");
        VF_ASSERT(n == 0 ? t.children == NULL : (void **)t.children == made && t.children != ch, "an array of its own");
        VF_ASSERT(cypher_astnode_get_child(&t, K) == (K < n ? &w : NULL), "each child, and none beyond the end");
        VF_REACH("made");
    }
    else { VF_REACH("failed"); }
    VF_ASSERT(K >= n || ch[K] == &w, "the array given stays as it is");
    cypher_astnode_release(&t);
    VF_ASSERT(nfreed == 1 && freedp == &t, "the node is released");
#else
    t.children = ch; t.nchildren = n; VF_ASSUME(K < n);
    int i = child_index(&t, &w);
    VF_ASSERT(i >= 0 && (unsigned)i < n && ch[i] == &w, "a child is found where it is");
    VF_REACH("found");
#endif
}

/* ast.c over trees of any shape, one level at a time: the recursive calls and the
 * functions of the node type go to their contracts */
#include "vf.h"
#include <stdlib.h>
#include <string.h>
#undef errno
static int vf_errno;
#define errno vf_errno
#include "../../config.h"
#include "astnode.h"
#include "annotation.h"
static unsigned n, nn, calls, W, nfreed, nrel; static _Bool failed, seen, wfail, wfreed; static int err;
static cypher_astnode_t **arr, **kids; static cypher_astnode_t *wn, *wc; static cypher_astnode_t *the; static const void *freedp[2];
static int stage;
static void *fail(void) { failed = 1; err = vf_int(); VF_ASSUME(err != 0); errno = err; return NULL; }
#if VF_WHAT <= 2
void *vf_calloc(size_t k, size_t s) { if (vf_bool()) { return fail(); } __CPROVER_assert(k == n && s == sizeof(void *), "PROP one place for each"); kids = __CPROVER_allocate((size_t)n * sizeof(*kids), 1); return kids; }
#define calloc vf_calloc
#endif
static void vf_freep(const void *p) { if (p != NULL) { __CPROVER_assert(nfreed < 2, "PROP released once"); freedp[nfreed++] = p; } }
#define free(p) vf_freep(p)
cypher_astnode_t *vf_clone(const cypher_astnode_t *); void vf_free_tree(cypher_astnode_t *); void vf_vfree(cypher_astnode_t * const *, unsigned); cypher_astnode_t **vf_vclone(cypher_astnode_t * const *, unsigned);
cypher_astnode_t *vf_vt_clone(const struct cypher_astnode_vt *, const cypher_astnode_t *, cypher_astnode_t **); void vf_vt_release(const struct cypher_astnode_vt *, cypher_astnode_t *);
static cypher_astnode_t cW, cO;
#include "ast.c"
#undef free
/* contract of cypher_ast_clone on a child: a new tree, or NULL for want of memory */
cypher_astnode_t *vf_clone(const cypher_astnode_t *a)
{
    __CPROVER_assert(!failed, "PROP no cloning after a failure");
    __CPROVER_assert(calls != W || a == wn, "PROP children are cloned in order");
    calls++;
    if (vf_bool()) { return fail(); }
    if (calls - 1 == W) { seen = 1; return &cW; }
    return &cO;
}
/* contract of cypher_ast_free on a child */
void vf_free_tree(cypher_astnode_t *a)
{
#if VF_WHAT == 4
    __CPROVER_assert(calls != W || a == wn, "PROP every tree is released, once");
    if (calls == W) { seen = 1; }
    calls++;
#endif
}
void vf_vfree(cypher_astnode_t * const *a, unsigned k)
{
#if VF_WHAT == 1
    __CPROVER_assert(failed && a == kids && k == n && stage == 0, "PROP what was cloned is released");
    if (W < n) { wfreed = 1; wc = kids[W]; }
#elif VF_WHAT == 2
    __CPROVER_assert(failed && seen == (n > 0) && (n == 0 || a == kids) && k == n && nfreed == 0, "PROP the clones of the children are released");
#else
    __CPROVER_assert((n == 0 || a == arr) && k == n, "PROP the children are released");
    __CPROVER_assert(nfreed == 0, "PROP the children are released before their array");
#endif
    stage++; errno = VF_WHAT == 1 || VF_WHAT == 2 ? vf_int() : errno;
}
cypher_astnode_t **vf_vclone(cypher_astnode_t * const *a, unsigned k)
{
    __CPROVER_assert(a == arr && k == n && n > 0, "PROP the children are cloned");
    if (vf_bool()) { return fail(); }
    seen = 1; return kids;
}
cypher_astnode_t *vf_vt_clone(const struct cypher_astnode_vt *vt, const cypher_astnode_t *a, cypher_astnode_t **c)
{
    __CPROVER_assert(a == the && c == (n > 0 ? kids : NULL) && !failed, "PROP a node is cloned with the clones of its children");
    __CPROVER_assert(vt == VT_PTR(the->type), "PROP as nodes of its type are");
    calls++;
    if (vf_bool()) { return fail(); }
    return &cW;
}
void vf_vt_release(const struct cypher_astnode_vt *vt, cypher_astnode_t *a)
{
    __CPROVER_assert(a == the && nrel == 0 && calls == 0, "PROP a node is released once, after its annotations");
    __CPROVER_assert(vt == VT_PTR(the->type), "PROP as nodes of its type are");
    nrel++; cypher_astnode_t x; *the = x;       /* gone */
}
/* contract of cp_release_annotation (C09): one annotation less; calls counts those left */
void cp_release_annotation(struct cypher_astnode_annotation *a)
{
    __CPROVER_assert(a != NULL && a == the->annotations && nrel == 0 && calls > 0, "PROP annotations are released one by one, before the node");
    calls--; the->annotations = calls > 0 ? vf_ptr() : NULL; VF_ASSUME((the->annotations != NULL) == (calls > 0));
}
void harness(void)
{
    n = nn = vf_count(); W = vf_uint(); calls = nfreed = nrel = 0; failed = seen = wfail = wfreed = 0; stage = 0; kids = NULL;
    static cypher_astnode_t w; wn = &w;
    arr = __CPROVER_allocate((size_t)n * sizeof(*arr), 0); if (W < n) { arr[W] = wn; }
    cypher_astnode_t t; the = &t; unsigned ty = vf_uint(); VF_ASSUME(ty < _MAX_VT_OFF); t.type = ty; t.children = n > 0 ? arr : NULL; t.nchildren = n; uint8_t ty0 = t.type;
#if VF_WHAT == 1
    cypher_astnode_t **r = cypher_ast_vclone(arr, n);
    if (n == 0) { VF_ASSERT(r == NULL && !failed, "nothing to clone"); }
    else if (r == NULL)
    {
        VF_ASSERT(failed && errno == err, "a failure is reported with its reason");
        VF_ASSERT(kids == NULL || (stage == 1 && nfreed == 1 && freedp[0] == kids), "what was allocated is released once");
        if (kids != NULL && W < n) { VF_ASSERT(wfreed && wc == (seen ? &cW : NULL), "each clone is released"); }
        VF_REACH("failed");
    }
    else { VF_ASSERT(!failed && r == kids && calls == n && nfreed == 0 && stage == 0, "each child is cloned once"); if (W < n) { VF_ASSERT(r[W] == &cW && arr[W] == wn, "each clone is in its place"); } VF_REACH("cloned"); }
#elif VF_WHAT == 2
    static cypher_astnode_t *kk[1]; kids = kk;
    VF_ASSERT(cypher_ast_clone(NULL) == NULL && calls == 0 && nfreed == 0, "the clone of nothing is nothing");
    cypher_astnode_t *r = cypher_ast_clone(the);
    if (r == NULL)
    {
        VF_ASSERT(failed && errno == err, "a failure is reported with its reason");
        VF_ASSERT(nfreed == (seen ? 1u : 0u) && (!seen || freedp[0] == kids), "the array is released once");
        VF_REACH("failed");
    }
    else
    {
        VF_ASSERT(!failed && calls == 1 && r == &cW, "a node is cloned once");
        VF_ASSERT(seen == (n > 0) && nfreed == (seen ? 1u : 0u) && (!seen || freedp[0] == kids), "the array is released once"); VF_REACH("cloned");
    }
    VF_ASSERT(t.type == ty0 && t.children == (n > 0 ? arr : NULL) && t.nchildren == n, "the original stays as it is");
#elif VF_WHAT == 3 || VF_WHAT == 5
    unsigned na = vf_count(); calls = 0;
#if VF_WHAT == 3
    cypher_ast_free(NULL);
#else
    cypher_astnode_free(NULL);
#endif
    VF_ASSERT(nrel == 0 && nfreed == 0, "nothing to release");
    calls = na; t.annotations = na > 0 ? vf_ptr() : NULL; VF_ASSUME((t.annotations != NULL) == (na > 0));
#if VF_WHAT == 3
    cypher_ast_free(the);
    VF_ASSERT(stage == 1 || n == 0, "the children are released");
#else
    cypher_astnode_free(the);
    VF_ASSERT(stage == 0, "the children are kept");
#endif
    VF_ASSERT(nrel == 1 && calls == 0, "the node is released once, with all its annotations");
    VF_ASSERT(nfreed == (n > 0 ? 1u : 0u) && (n == 0 || freedp[0] == arr), "the array of children is released once");
    VF_REACH("released");
#elif VF_WHAT == 4
    cypher_ast_vfree(arr, n);
    VF_ASSERT(calls == n && (W >= n || seen), "every tree is released, once");
    VF_REACH("released");
#endif
}

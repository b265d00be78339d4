/* find_annotation over a list of any length; context_free releases the whole list */
#include "vf.h"
#include <assert.h>
#undef errno
static int vf_errno;
#define errno vf_errno
#include "../../config.h"
#include "astnode.h"
typedef struct cypher_astnode_annotation annot;
static annot *arr; static unsigned n, W; static cypher_ast_annotation_context_t ctx; static unsigned rel, freed_; static _Bool seen;
/* A list of n elements of any length for find_annotation.  gi: the index of the
   element looked at.  Element W is a cell of its own; the others are shown one
   after the other through one cell, refilled with arbitrary contents as the
   walk moves on (the function under contract only reads the element it is at).
   GHOST asserts the element is the one of index gi and takes the shape of the
   list there: it is followed by the element of index gi+1, the last by NULL. */
static unsigned gi; static annot wit, other;
static annot any_annot(void) { annot a; return a; }
#define CELL(k) ((k) >= n ? NULL : (k) == W ? &wit : &other)
#define GHOST(p) { __CPROVER_assert(gi < n && (p) == CELL(gi), "PROP stays on the list"); if ((p) == &other) { other = any_annot(); } __CPROVER_assume((p)->node_next == CELL(gi + 1)); gi++; }
static void vf_free(void *p) { __CPROVER_assert(p == &ctx && rel == n && !freed_, "PROP the context is released last"); freed_ = 1; }
void vf_release(annot *a);
#define free vf_free
#include "annotation.c"
#undef free
/* contract of cp_release_annotation (unit release): the annotation leaves the lists */
void vf_release(annot *a)
{
    __CPROVER_assert(a != NULL && a == ctx.annotations && a == arr + rel, "PROP annotations of the context are released one by one");
    if (rel == W) { seen = 1; }
    rel++; ctx.annotations = rel < n ? arr + rel : NULL;
}
void harness(void)
{
    n = vf_count(); W = vf_uint(); arr = __CPROVER_allocate((size_t)n * sizeof(annot), 0); rel = freed_ = gi = 0; seen = 0;
#if VF_WHAT == 1
    cypher_astnode_t node; wit = any_annot(); other = any_annot(); node.annotations = CELL(0);
    annot *r = find_annotation(&ctx, &node);
    if (r == NULL) { if (W < n) { VF_ASSERT(wit.context != &ctx, "nothing is found only if there is none for the context"); VF_REACH("none"); } }
    else {
        VF_ASSERT(r == &wit || r == &other, "what is found is attached to the node"); VF_ASSERT(r->context == &ctx, "within the context");
        if (r == &other && W < gi) { VF_ASSERT(wit.context != &ctx, "the first one"); } VF_REACH("found"); }
#else
    ctx.annotations = n ? arr : NULL;
    cypher_ast_annotation_context_free(NULL);
    VF_ASSERT(rel == 0 && !freed_, "no context, nothing done");
    cypher_ast_annotation_context_free(&ctx);
    VF_ASSERT(freed_ && rel == n && (W >= n || seen), "every annotation of the context is released, then the context");
    VF_REACH("freed");
#endif
}

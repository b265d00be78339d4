/* attaching, replacing, removing, releasing annotations: both lists of an
 * annotation (that of its node, that of its context) stay properly linked and
 * nothing else changes.  Neighbours' neighbours lie beyond every access, so
 * the surroundings of one annotation stand for lists of any length. */
#include "vf.h"
#include <assert.h>
#include "../../config.h"
#include "astnode.h"
typedef struct cypher_astnode_annotation annot;
annot *vf_find(const void *c, const void *n);
static annot A, P1, N1, P2, N2; static cypher_astnode_t node; static cypher_ast_annotation_context_t ctx;
static unsigned freed_, cbs, mallocs; static _Bool oom, known; static annot *made_; static void *ud, *dataA;
static _Bool p1, n1, p2, n2;
static void vf_free(void *p) { __CPROVER_assert(p == &A && !freed_, "PROP an annotation is released once"); freed_ = 1; }
static void *vf_malloc(size_t n) { __CPROVER_assert(n == sizeof(annot), "PROP room for an annotation"); if (vf_bool()) { oom = 1; errno = ENOMEM; return NULL; } mallocs++; return made_ = __CPROVER_allocate(sizeof(annot), 0); }
#define free vf_free
#define malloc vf_malloc
#include "annotation.c"
#undef free
#undef malloc
annot *vf_find(const void *c, const void *n)
{
    __CPROVER_assert(c == &ctx && n == &node, "PROP looked up for this node and context");
    return known ? &A : NULL;
}
static annot a0, b1, c1, b2, c2; static annot *nh, *ch; static cypher_astnode_t node0; static cypher_ast_annotation_context_t ctx0;
/* everything as before, but for the links given */
static void same(annot *nodehead, annot *ctxhead, annot *P1next, annot *N1prev, annot *P2next, annot *N2prev)
{
    __CPROVER_assert(node.annotations == nodehead && ctx.annotations == ctxhead, "PROP the lists begin where they should");
    __CPROVER_assert(P1.node_next == P1next && N1.node_prev == N1prev && P2.ctx_next == P2next && N2.ctx_prev == N2prev, "PROP neighbours stay linked");
    __CPROVER_assert(P1.node_prev == b1.node_prev && P1.ctx_prev == b1.ctx_prev && P1.ctx_next == b1.ctx_next && P1.data == b1.data && P1.astnode == b1.astnode && P1.context == b1.context
        && N1.node_next == c1.node_next && N1.ctx_prev == c1.ctx_prev && N1.ctx_next == c1.ctx_next && N1.data == c1.data && N1.astnode == c1.astnode && N1.context == c1.context
        && P2.ctx_prev == b2.ctx_prev && P2.node_prev == b2.node_prev && P2.node_next == b2.node_next && P2.data == b2.data && P2.astnode == b2.astnode && P2.context == b2.context
        && N2.ctx_next == c2.ctx_next && N2.node_prev == c2.node_prev && N2.node_next == c2.node_next && N2.data == c2.data && N2.astnode == c2.astnode && N2.context == c2.context,
        "PROP other annotations are left alone");
    __CPROVER_assert(node.type == node0.type && node.children == node0.children && node.nchildren == node0.nchildren && node.ordinal == node0.ordinal && ctx.release_cb == ctx0.release_cb && ctx.release_cb_userdata == ctx0.release_cb_userdata, "PROP node and context are otherwise unchanged");
}
static void detached(void)
{
    same(p1 ? nh : (n1 ? &N1 : NULL), p2 ? ch : (n2 ? &N2 : NULL), p1 ? (n1 ? &N1 : NULL) : b1.node_next, n1 ? (p1 ? &P1 : NULL) : c1.node_prev,
         p2 ? (n2 ? &N2 : NULL) : b2.ctx_next, n2 ? (p2 ? &P2 : NULL) : c2.ctx_prev);
}
static void cb(void *u, const cypher_astnode_t *n, void *d)
{
    __CPROVER_assert(u == ud && n == &node && d == dataA && !cbs && !freed_, "PROP the handler is given the node and its data, once");
    detached(); cbs++;
}
void harness(void)
{
    static char hd1, hd2, d1, d2; annot x1, x2, x3, x4, x5; cypher_astnode_t y;
    P1 = x1; N1 = x2; P2 = x3; N2 = x4; A = x5; node = y;
    p1 = vf_bool(); n1 = vf_bool(); p2 = vf_bool(); n2 = vf_bool(); known = vf_bool(); oom = 0; freed_ = cbs = mallocs = 0;
    ctx.release_cb = vf_bool() ? cb : NULL; ctx.release_cb_userdata = ud = vf_ptr();
    dataA = A.data; A.astnode = &node; A.context = &ctx;
#if VF_WHAT == 1
    /* representation: A is in the list of the node and in that of the context */
    known = 1;
    nh = p1 ? (annot *)&hd1 : &A; ch = p2 ? (annot *)&hd2 : &A;   /* an element further ahead, if there are any before A */
    node.annotations = nh; ctx.annotations = ch;
    A.node_prev = p1 ? &P1 : NULL; A.node_next = n1 ? &N1 : NULL; A.ctx_prev = p2 ? &P2 : NULL; A.ctx_next = n2 ? &N2 : NULL;
    if (p1) { P1.node_next = &A; } if (n1) { N1.node_prev = &A; } if (p2) { P2.ctx_next = &A; } if (n2) { N2.ctx_prev = &A; }
#else
    /* N1, N2 are at the head of the lists, if there are any */
    nh = node.annotations = n1 ? &N1 : NULL; ch = ctx.annotations = n2 ? &N2 : NULL;
    if (n1) { N1.node_prev = NULL; } if (n2) { N2.ctx_prev = NULL; }
#endif
    a0 = A; b1 = P1; c1 = N1; b2 = P2; c2 = N2; node0 = node; ctx0 = ctx;
#if VF_WHAT == 1
    if (vf_bool())
    {
        cp_release_annotation(&A);
        VF_ASSERT(cbs == (ctx.release_cb != NULL), "the handler is told");
        VF_REACH("released");
    }
    else
    {
        void *r = cypher_astnode_remove_annotation(&ctx, &node);
        VF_ASSERT(r == dataA && cbs == 0, "removing returns the data, without telling the handler");
        VF_REACH("removed");
    }
    detached();
    VF_ASSERT(freed_ == 1, "the annotation is released");
#else
    void *prev = vf_ptr(), *prev0 = prev; _Bool want = vf_bool(); static char nd; void *d = &nd;
    VF_ASSERT(cypher_astnode_get_annotation(&ctx, &node) == (known ? dataA : NULL), "the data attached is found");
    if (!known) { VF_ASSERT(cypher_astnode_remove_annotation(&ctx, &node) == NULL, "nothing to remove"); }
    same(nh, ch, b1.node_next, c1.node_prev, b2.ctx_next, c2.ctx_prev);
    VF_ASSUME(known || !vf_bool());
    int r = cypher_astnode_attach_annotation(&ctx, &node, d, want ? &prev : NULL);
    if (known)
    {
        VF_ASSERT(r == 0 && A.data == d && mallocs == 0 && prev == (want ? dataA : prev0), "attaching again replaces, and gives what was attached");
        VF_ASSERT(A.context == a0.context && A.astnode == a0.astnode && A.node_prev == a0.node_prev && A.node_next == a0.node_next && A.ctx_prev == a0.ctx_prev && A.ctx_next == a0.ctx_next, "in its place");
        same(nh, ch, b1.node_next, c1.node_prev, b2.ctx_next, c2.ctx_prev);
        VF_REACH("replaced");
    }
    else if (r != 0) { VF_ASSERT(r == -1 && oom && prev == prev0, "fails only when out of memory"); same(nh, ch, b1.node_next, c1.node_prev, b2.ctx_next, c2.ctx_prev); VF_REACH("failed"); }
    else
    {
        annot *m = made_;
        VF_ASSERT(!oom && mallocs == 1 && m->data == d && m->astnode == &node && m->context == &ctx && prev == (want ? NULL : prev0), "attached to the node within the context");
        VF_ASSERT(m->node_prev == NULL && m->ctx_prev == NULL && m->node_next == nh && m->ctx_next == ch, "at the head of both lists");
        same(m, m, b1.node_next, n1 ? m : c1.node_prev, b2.ctx_next, n2 ? m : c2.ctx_prev);
        VF_REACH("attached");
    }
    VF_ASSERT(freed_ == 0 && cbs == 0, "nothing is released");
#endif
}

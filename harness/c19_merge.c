/* block_merge_action: all children move to the parent, in order, or none; block_free: each child is released once */
#include "vfparser.h"
#undef malloc
#undef realloc
#undef memcpy
#undef memmove
#undef errno
static int vf_errno;
#define errno vf_errno
#include "../../config.h"
#include "cypher-parser.h"
static unsigned n, W, np, len0, cleaned; static _Bool seen, pushfail; static void *wn; static cypher_astnode_t **chv; static unsigned freedb;
static void vf_free(void *p);
#define free vf_free
#define EQP(a, b) ((a).offset == (b).offset && (a).line == (b).line && (a).column == (b).column)
struct cypher_input_position vf_input_position(void *, unsigned); void vf_block_free(void *);
static unsigned freed_; static void *freed_p;
#include VF_SRC
#undef free
static yycontext *Y; static struct block par, cur, prev; static unsigned pos_of; static struct cypher_input_position pos_;
static void vf_free(void *p) { __CPROVER_assert(p == &cur && !freedb && cleaned == 2, "PROP the block itself is released last, once"); freedb = 1; }
static void vf_at_abort(void)
{
    __CPROVER_assert(pushfail && par.children.vec.length == len0 && cur.children.vec.length == n && Y->prev_block == &cur, "PROP out of memory: each child still belongs to one block");
    VF_REACH("abort");
}
struct cypher_input_position vf_input_position(void *yy, unsigned p) { __CPROVER_assert(yy == Y, "PROP position of this input"); pos_of = p; return pos_; }
void vf_block_free(void *b) { __CPROVER_assert(freed_ == 0, "PROP the block closed before is released once"); freed_++; freed_p = b; }
void cp_vector_cleanup(struct cp_vector *v) { __CPROVER_assert(v == (cleaned ? &cur.children.vec : &cur.sequence.vec) || v == (cleaned ? &cur.sequence.vec : &cur.children.vec), "PROP lists released"); cleaned++; }
int cp_vector_push(struct cp_vector *v, void *e)
{
    __CPROVER_assert(v == &par.children.vec && v->length == len0 + np, "PROP children move to the parent");
    if (vf_bool()) { pushfail = 1; vf_alloc_failed = 1; errno = ENOMEM; return -1; }
    if (np == W) { __CPROVER_assert(*(void **)e == wn, "PROP children keep their order"); seen = 1; }
    np++; v->length++;
    return 0;
}
void cypher_ast_free(cypher_astnode_t *c)
{
    if (n - 1 - np == W) { __CPROVER_assert(c == wn, "PROP each child is released"); seen = 1; }
    np++; errno = vf_int();
}
void harness(void)
{
    Y = __CPROVER_allocate(sizeof(*Y), 1);
    struct block *blks[2]; blks[0] = &par; blks[1] = &cur;
    Y->blocks.vec.elements = (char *)blks; Y->blocks.vec.element_size = sizeof(struct block *); Y->blocks.vec.length = 2; Y->blocks.vec.capacity = 2;
    Y->prev_block = vf_bool() ? &prev : NULL; void *prev0 = Y->prev_block; prev.children.vec.length = 0;
    struct cypher_input_position p0, p1; pos_ = p0; cur.range.start = p1; VF_ASSUME(p1.offset <= p0.offset);
    int at = vf_int(); VF_ASSUME(at >= 0); cur.buffer_start = vf_uint(); VF_ASSUME(cur.buffer_start <= at);
    n = vf_count(); W = vf_uint(); len0 = vf_count(); np = 0; seen = pushfail = 0; freed_ = freedb = cleaned = 0;
    chv = __CPROVER_allocate((size_t)n * sizeof(void *), 0); static char nd; wn = &nd;
    if (W < n) { chv[W] = wn; }
    cur.children.vec.elements = (char *)chv; cur.children.vec.length = n; cur.children.vec.element_size = sizeof(void *); par.children.vec.length = len0;
#if VF_WHAT == 1
    block_merge_action(Y, NULL, at);
    VF_ASSERT(Y->blocks.vec.length == 1 && Y->prev_block == &cur && pos_of == at && cur.buffer_end == at && EQP(cur.range.end, pos_) && EQP(cur.range.start, p1), "the innermost block is closed at the place reached");
    VF_ASSERT(freed_ == 1 && freed_p == prev0, "the block closed before is released");
    VF_ASSERT(np == n && par.children.vec.length == len0 + n && cur.children.vec.length == 0, "all children move to the parent");
    if (W < n) { VF_ASSERT(seen, "each child moves"); VF_REACH("moved"); }
#else
    _Bool null = vf_bool();
    block_free(null ? NULL : &cur);
    /* instance of the precondition (add_child): no child is NULL */
    VF_ASSUME(cur.children.vec.length >= n || chv[cur.children.vec.length] != NULL);
    if (null) { VF_ASSERT(!freedb && np == 0 && cleaned == 0, "no block, nothing done"); }
    else { VF_ASSERT(freedb && (np == n || n == 0) && cleaned == 2, "all is released"); if (W < n) { VF_ASSERT(seen, "each child is released once"); VF_REACH("released"); } }
#endif
}

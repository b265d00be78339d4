/* blocks: opened, closed, replaced, merged; children and sequences */
#include "vfparser.h"
#undef malloc
#undef realloc
#undef memcpy
#undef memmove
#undef errno
static int vf_errno;
#define errno vf_errno
#include "../../config.h"
#include "cypher-parser.h"
static unsigned live; static void *made_; static _Bool pushfail;
static void vf_at_abort(void);
static void *vfb_malloc(size_t n)
{
    if (vf_bool()) { vf_alloc_failed = 1; errno = ENOMEM; return NULL; }
    live++;
    return made_ = __CPROVER_allocate(n, 0);
}
static void vfb_free(void *p) { __CPROVER_assert(p == made_ && live == 1, "PROP only what was made is released"); live--; free(p); }
#define malloc vfb_malloc
#define free vfb_free
struct cypher_input_position vf_input_position(void *, unsigned); void vf_block_free(void *);
static unsigned freed_; static void *freed_p;
#include VF_SRC
#undef free
static yycontext *Y; static void *push_to[3]; static void *pushed[3]; static unsigned npush; static void *nodefree; static int oldlen;
#define EQP(a, b) ((a).offset == (b).offset && (a).line == (b).line && (a).column == (b).column)
static struct cypher_input_position pos_; static unsigned pos_of;
static void vf_at_abort(void) { if (VF_WHAT == 1) { __CPROVER_assert(live == 0, "PROP nothing is left behind when out of memory"); }
    if (VF_WHAT == 5 && npush) { } }
struct cypher_input_position vf_input_position(void *yy, unsigned p) { __CPROVER_assert(yy == Y, "PROP position of this input"); pos_of = p; return pos_; }
void vf_block_free(void *b) { __CPROVER_assert(freed_ == 0, "PROP the block closed before is released once"); freed_++; freed_p = b; }
void cp_vector_init(struct cp_vector *v, size_t s) { v->element_size = s; v->elements = NULL; v->capacity = 0; v->length = 0; }
int cp_vector_push(struct cp_vector *v, void *e)
{
    if (vf_bool()) { pushfail = 1; vf_alloc_failed = 1; errno = ENOMEM; return -1; }
    if (npush < 3) { push_to[npush] = v; pushed[npush] = *(void **)e; }
    npush++; v->length++;
    return 0;
}
void cypher_ast_free(cypher_astnode_t *n) { nodefree = n; errno = vf_int(); }
void harness(void)
{
    Y = __CPROVER_allocate(sizeof(*Y), 1);
    static struct block par, cur, prev; struct block *blks[2]; blks[0] = &par; blks[1] = &cur;
    Y->blocks.vec.elements = (char *)blks; Y->blocks.vec.element_size = sizeof(struct block *); Y->blocks.vec.length = 2; Y->blocks.vec.capacity = 2;
    Y->prev_block = vf_bool() ? &prev : NULL; void *prev0 = Y->prev_block; prev.children.vec.length = 0;
    struct cypher_input_position p0, p1; pos_ = p0; cur.range.start = p1; VF_ASSUME(p1.offset <= p0.offset);
    int at = vf_int(); VF_ASSUME(at >= 0); cur.buffer_start = vf_uint(); VF_ASSUME(cur.buffer_start <= at);
    freed_ = npush = live = 0; pushfail = 0; nodefree = NULL;
#if VF_WHAT == 1
    {
        block_start_action(Y, NULL, at);
        struct block *b = made_;
        VF_ASSERT(live == 1 && npush == 1 && push_to[0] == &(Y->blocks.vec) && pushed[0] == b, "a block is opened");
        VF_ASSERT(pos_of == at && b->buffer_start == at && b->buffer_end == at && EQP(b->range.start, pos_) && EQP(b->range.end, pos_), "a block begins at the place reached");
        VF_ASSERT(b->children.vec.length == 0 && b->sequence.vec.length == 0 && b->children.vec.element_size == sizeof(void *) && b->sequence.vec.element_size == sizeof(void *), "a block begins empty");
        VF_ASSERT(freed_ == 1 && freed_p == prev0 && Y->prev_block == NULL, "the block closed before is released");
        VF_REACH("start");
    }
#endif
#if VF_WHAT == 2
    {
        block_end_action(Y, NULL, at);
        VF_ASSERT(Y->blocks.vec.length == 1 && Y->prev_block == &cur, "the innermost block is closed");
        VF_ASSERT(pos_of == at && cur.buffer_end == at && EQP(cur.range.end, pos_) && EQP(cur.range.start, p1), "a block ends at the place reached");
        VF_ASSERT(freed_ == 1 && freed_p == prev0 && npush == 0, "the block closed before is released");
        VF_REACH("end");
    }
#endif
#if VF_WHAT == 3
    {
        block_replace_action(Y, NULL, at);
        struct block *b = made_;
        VF_ASSERT(Y->prev_block == &cur && cur.buffer_end == at && EQP(cur.range.end, pos_) && EQP(cur.range.start, p1), "the innermost block is closed");
        VF_ASSERT(live == 1 && npush == 1 && push_to[0] == &(Y->blocks.vec) && pushed[0] == b && Y->blocks.vec.length == 2, "another is opened in its place");
        VF_ASSERT(EQP(b->range.start, p1) && b->children.vec.length == 0 && b->sequence.vec.length == 0, "which begins where the closed one did");
        VF_ASSERT(freed_ == 1 && freed_p == prev0, "the block closed before is released");
        VF_REACH("replace");
    }
#endif
#if VF_WHAT == 5
    {
        static char nd; cypher_astnode_t *n = (void *)&nd;
        _Bool null = vf_bool(); Y->prev_block = &prev;
        if (null) { vf_alloc_failed = 1; errno = ENOMEM; }
        cypher_astnode_t *r = vf_bool() ? add_terminal(Y, null ? NULL : n) : add_child(Y, null ? NULL : n);
        VF_ASSERT(r == n && npush == 1 && push_to[0] == &(cur.children.vec) && pushed[0] == n, "the node becomes the last child of the innermost block");
        VF_ASSERT(nodefree == NULL, "a node kept is not released");
        VF_REACH("child");
    }
#endif
#if VF_WHAT == 6
    {
        static char nd; cypher_astnode_t *n = (void *)&nd; static char op;
        _sequence_add(Y, n);
        VF_ASSERT(npush == 1 && push_to[0] == &(cur.sequence.vec) && pushed[0] == n, "the node is added to the sequence of the innermost block");
        _op_push(Y, (void *)&op);
        VF_ASSERT(npush == 2 && push_to[1] == &(Y->operators.vec) && pushed[1] == &op, "operators are kept in order");
        VF_REACH("sequence");
    }
#endif
}

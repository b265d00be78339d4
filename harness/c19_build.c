/* the functions that build nodes from a closed block (generated part below) */
#include "vfparser.h"
#include <ctype.h>
#include "../../config.h"
#include "cypher-parser.h"
static void vf_at_abort(void) {}
void vf_block_free(void *b); cypher_astnode_t *vf_add_child(void *yy, cypher_astnode_t *n);
#include VF_SRC
static yycontext *Y; static struct block pb_; static unsigned made, freed_, added; static cypher_astnode_t *node_;
static void *seqv, *chv; static unsigned nseq, nch; static struct cypher_input_range rg; static size_t bs, be, sbl; static const char *sbd;
static int sel; static void *P0, *P1, *P2, *P3, *P4, *P5; static _Bool B0, B1, B2, B3, B4, B5; static int E0; static size_t N1;
static struct block *the_pb;
#define EQP(a, b) ((a).offset == (b).offset && (a).line == (b).line && (a).column == (b).column)
#define EQR(r) (EQP((r).start, rg.start) && EQP((r).end, rg.end))
static cypher_astnode_t *vf_made(void)
{
    __CPROVER_assert(made == 0 && freed_ == 0, "PROP one node is made, while the block is there");
    made++;
    static char nd;
    if (vf_bool()) { vf_alloc_failed = 1; errno = ENOMEM; node_ = NULL; } else { node_ = (void *)&nd; }
    return node_;
}
void vf_block_free(void *b)
{
    __CPROVER_assert(b == the_pb && freed_ == 0, "PROP the closed block is released once");
    __CPROVER_assert(node_ == NULL || nch == 0 || the_pb->children.vec.length == 0, "PROP children move to the new node");
    freed_++;
}
cypher_astnode_t *vf_add_child(void *yy, cypher_astnode_t *n)
{
    __CPROVER_assert(yy == Y && made == 1 && freed_ == 1 && Y->prev_block == NULL && n == node_, "PROP the node made becomes a child of the open block");
    added++;
    if (n == NULL || vf_bool()) { vf_alloc_failed = 1; errno = ENOMEM; abort_parse((yycontext *)yy); }
    return n;
}
bool cypher_astnode_instanceof(const cypher_astnode_t *n, cypher_astnode_type_t t) { return 1; }
/*STUBS*/
void harness(void)
{
    Y = __CPROVER_allocate(sizeof(*Y), 1);
    the_pb = &pb_; Y->prev_block = the_pb;
    seqv = vf_ptr(); chv = vf_ptr(); nseq = vf_uint(); nch = vf_uint(); struct cypher_input_range r0; rg = r0;
    VF_ASSUME(nseq % 2 == 0);   /* asserted of pairs; of no consequence elsewhere */
    pb_.sequence.vec.elements = seqv; pb_.sequence.vec.length = nseq; pb_.children.vec.elements = chv; pb_.children.vec.length = nch; pb_.range = rg;
    size_t bl = vf_uint(); VF_ASSUME(bl >= 1); bs = vf_uint(); be = vf_uint(); VF_ASSUME(bs <= be && be <= bl);
    Y->__buf = __CPROVER_allocate(bl, 0); pb_.buffer_start = bs; pb_.buffer_end = be;
    sbd = vf_ptr(); sbl = vf_size(); Y->string_buffer.buffer = (char *)sbd; Y->string_buffer.length = sbl;
    P0 = vf_ptr(); P1 = vf_ptr(); P2 = vf_ptr(); P3 = vf_ptr(); P4 = vf_ptr(); P5 = vf_ptr(); B0 = vf_bool(); B1 = vf_bool(); B2 = vf_bool(); B3 = vf_bool(); B4 = vf_bool(); B5 = vf_bool();
    E0 = vf_int(); VF_ASSUME(E0 >= 0 && E0 <= 2); N1 = vf_size();
    made = freed_ = added = 0; cypher_astnode_t *r = NULL;
    sel = vf_int(); VF_ASSUME(sel >= 0 && sel < /*N*/);
    switch (sel)
    {
/*CASES*/
    }
    VF_ASSERT(made == 1 && freed_ == 1 && added == 1 && r == node_ && r != NULL, "the node made is returned");
}

/* _query, _call_clause: the sequence is split where the kind of node changes;
 * _comparison_operator: the operators of the chain; _block_identifier: trimmed text */
#include "vfparser.h"
#include <ctype.h>
#include "../../config.h"
#include "cypher-parser.h"
static void vf_at_abort(void) {}
/* the kind of a node: any function of it (nodes are arbitrary values here, never followed) */
#define ISA(p) ((_Bool)((size_t)(p) & 1))
static cypher_astnode_t **seqv; static unsigned nseq, nch, W; static void *chv; static cypher_astnode_type_t the_type;
static size_t J, bs, be;
#undef isspace
#define SP(c) ((c) == ' ' || ((c) >= '\t' && (c) <= '\r'))
#define isspace(c) SP(c)
#define O(p) ((size_t)__CPROVER_POINTER_OFFSET(p))
void vf_block_free(void *b); cypher_astnode_t *vf_add_child(void *yy, cypher_astnode_t *n);
#include VF_SRC
static yycontext *Y; static struct block pb_; static unsigned made, freed_, added; static cypher_astnode_t *node_;
static struct cypher_input_range rg; static void *P0, *P1; static unsigned nops; static const cypher_operator_t **opsv;
#define EQP(a, b) ((a).offset == (b).offset && (a).line == (b).line && (a).column == (b).column)
#define EQR(r) (EQP((r).start, rg.start) && EQP((r).end, rg.end))
static cypher_astnode_t *vf_made(void)
{
    __CPROVER_assert(made == 0 && freed_ == 0, "PROP one node is made, while the block is there");
    made++;
    static char nd;
    if (vf_bool()) { vf_alloc_failed = 1; errno = ENOMEM; node_ = NULL; } else { node_ = (void *)&nd; }
    return node_;
}
void vf_block_free(void *b)
{
    __CPROVER_assert(b == &pb_ && freed_ == 0, "PROP the closed block is released once");
    __CPROVER_assert(node_ == NULL || nch == 0 || pb_.children.vec.length == 0, "PROP children move to the new node");
    freed_++;
}
cypher_astnode_t *vf_add_child(void *yy, cypher_astnode_t *n)
{
    __CPROVER_assert(yy == Y && made == 1 && freed_ == 1 && Y->prev_block == NULL && n == node_, "PROP the node made becomes a child of the open block");
    added++;
    if (n == NULL || vf_bool()) { vf_alloc_failed = 1; errno = ENOMEM; abort_parse((yycontext *)yy); }
    return n;
}
bool cypher_astnode_instanceof(const cypher_astnode_t *n, cypher_astnode_type_t t)
{
    __CPROVER_assert(t == the_type, "PROP the sequence is split by the kind of its nodes");
    return ISA(n);
}
static void split(unsigned k, _Bool first)
{
    __CPROVER_assert(k <= nseq, "PROP the parts of the sequence make up the whole");
    if (W < k && k <= nseq) { __CPROVER_assert(ISA(seqv[W]) == first, "PROP the first part holds nodes of one kind"); VF_REACH("first part"); }
    if (k < nseq) { __CPROVER_assert(ISA(seqv[k]) != first, "PROP the second part begins where the kind changes"); VF_REACH("second part"); }
}
#if VF_WHAT == 1
cypher_astnode_t *cypher_ast_query(cypher_astnode_t * const *options, unsigned int noptions, cypher_astnode_t * const *clauses, unsigned int nclauses,
        cypher_astnode_t **children, unsigned int nchildren, struct cypher_input_range range)
{
    split(noptions, 1);
    __CPROVER_assert((void *)options == (void *)seqv && (void *)clauses == (void *)(seqv + noptions) && nclauses == nseq - noptions && (void *)children == chv && nchildren == nch && EQR(range), "PROP a query is made from its options and clauses");
    return vf_made();
}
#elif VF_WHAT == 2
cypher_astnode_t *cypher_ast_call(const cypher_astnode_t *proc_name, cypher_astnode_t * const *args, unsigned int nargs, cypher_astnode_t * const *projections, unsigned int nprojections,
        const cypher_astnode_t *predicate, cypher_astnode_t **children, unsigned int nchildren, struct cypher_input_range range)
{
    split(nargs, 0);
    __CPROVER_assert(proc_name == P0 && predicate == P1 && (void *)args == (void *)seqv && (void *)projections == (void *)(seqv + nargs) && nprojections == nseq - nargs && (void *)children == chv && nchildren == nch && EQR(range), "PROP a call is made from its arguments and projections");
    return vf_made();
}
#elif VF_WHAT == 3
cypher_astnode_t *cypher_ast_comparison(unsigned int length, const cypher_operator_t * const *ops, cypher_astnode_t * const *args,
        cypher_astnode_t **children, unsigned int nchildren, struct cypher_input_range range)
{
    __CPROVER_assert(length == nseq - 1 && (void *)args == (void *)seqv && (void *)ops == (void *)(opsv + (nops - length)) && Y->operators.vec.length == nops && (void *)children == chv && nchildren == nch && EQR(range), "PROP a comparison is made from all arguments and the operators last met");
    return vf_made();
}
#else
cypher_astnode_t *cypher_ast_identifier(const char *s, size_t n, struct cypher_input_range range)
{
    const char *b = Y->__buf;
    __CPROVER_assert(EQR(range) && __CPROVER_same_object(s, b) && O(s) >= bs && O(s) <= be && n <= be - O(s), "PROP an implied name is text of the block");
    size_t f = O(s), t = f + n;
    if (n > 0) { __CPROVER_assert(!SP(b[f]) && !SP(b[t-1]), "PROP an implied name begins and ends without white space"); VF_REACH("name"); }
    if (J >= bs && J < be && (J < f || J >= t)) { __CPROVER_assert(SP(b[J]), "PROP only white space is left out"); VF_REACH("trimmed"); }
    return vf_made();
}
#endif
void harness(void)
{
    Y = __CPROVER_allocate(sizeof(*Y), 1);
    Y->prev_block = &pb_; W = vf_uint(); J = vf_size();
    chv = vf_ptr(); nseq = vf_count(); nch = VF_WHAT == 4 ? 0 : vf_uint(); struct cypher_input_range r0; rg = r0;
    if (VF_WHAT == 3) { VF_ASSUME(nseq >= 2); }     /* asserted by the code; two arguments at least by the grammar */
    seqv = __CPROVER_allocate((size_t)nseq * sizeof(cypher_astnode_t *), 0);
    pb_.sequence.vec.elements = (char *)seqv; pb_.sequence.vec.length = nseq; pb_.children.vec.elements = chv; pb_.children.vec.length = nch; pb_.range = rg;
    nops = vf_count(); VF_ASSUME(VF_WHAT != 3 || nops >= nseq - 1);
    opsv = __CPROVER_allocate((size_t)nops * sizeof(void *), 0); Y->operators.vec.elements = (char *)opsv; Y->operators.vec.length = nops;
    size_t bl = vf_uint(); VF_ASSUME(bl >= 1 && bl <= (1u << 30)); bs = vf_uint(); be = vf_uint(); VF_ASSUME(bs <= be && be <= bl);
    Y->__buf = __CPROVER_allocate(bl, 0); pb_.buffer_start = bs; pb_.buffer_end = be;
    P0 = vf_ptr(); P1 = vf_ptr();
    made = freed_ = added = 0; cypher_astnode_t *r;
    if (VF_WHAT == 1) { the_type = CYPHER_AST_QUERY_OPTION; r = _query(Y); }
    else if (VF_WHAT == 2) { the_type = CYPHER_AST_PROJECTION; r = _call_clause(Y, P0, P1); }
    else if (VF_WHAT == 3) { r = _comparison_operator(Y); VF_ASSERT(Y->operators.vec.length == nops - (nseq - 1), "the operators of the chain are taken"); }
    else { r = _block_identifier(Y); }
    VF_ASSERT(made == 1 && freed_ == 1 && added == 1 && r == node_ && r != NULL, "the node made is returned");
    VF_REACH("made");
}

/* expression, _prec_expression: one level is opened for the operand and closed
   again, whether it matches or not */
#include "vfparser.h"
static void vf_at_abort(void) { }
#include VF_SRC
#include "operators.c"
static yycontext *Y; static unsigned depth, calls, top; static int pos, nth, matched; static _Bool open_;
#if VF_WHAT == 1
#define RULE yy_expression
#else
#define RULE yy__prec_expression
#endif
/* contract of cp_vector_push (C16) */
int cp_vector_push(struct cp_vector *v, void *e)
{
    __CPROVER_assert(v == &(Y->precedences.vec) && v->length == depth && !open_, "PROP one level is opened");
    if (vf_bool()) { vf_alloc_failed = 1; errno = ENOMEM; return -1; }
    v->length++; top = *(unsigned *)e; open_ = 1;
    return 0;
}
/* the recursive rule, under its own contract: the levels are as before */
YY_RULE(int) yy__expression(yycontext *yy)
{
    __CPROVER_assert(yy == Y && open_ && Y->precedences.vec.length == depth + 1 && Y->__pos == pos, "PROP the operand is parsed at its level");
    calls++; Y->op = vf_bool() ? CYPHER_OP_OR : CYPHER_OP_POW; matched = vf_bool();
    if (matched) { int d = vf_int(); VF_ASSUME(d >= 1 && d <= 1024); Y->__pos += d; Y->__thunkpos += d; }
    return matched;
}
void vf_do(yycontext *yy, yyaction a) { yy->__thunkpos++; }
void harness(void)
{
    Y = __CPROVER_allocate(sizeof(*Y), 1);
    depth = vf_count(); pos = vf_int(); VF_ASSUME(pos >= 0 && pos <= (1 << 29)); nth = vf_int(); VF_ASSUME(nth >= 0 && nth <= (1 << 29));
    Y->__pos = pos; Y->__thunkpos = nth; Y->precedences.vec.length = depth; Y->precedences.vec.element_size = sizeof(unsigned); Y->precedences.vec.capacity = depth + 1;
    Y->precedences.vec.elements = __CPROVER_allocate((size_t)(depth + 1) * sizeof(unsigned), 0);
    const cypher_operator_t o; Y->op = &o; calls = 0; open_ = 0;
    int r = RULE(Y);
    VF_ASSERT(calls == 1 && (r != 0) == (matched != 0), "it matches if its operand does");
    VF_ASSERT(Y->precedences.vec.length == depth, "the level is closed again");
#if VF_WHAT == 1
    VF_ASSERT(top == 0, "an expression of its own takes every operator");
#else
    VF_ASSERT(top == o.precedence + (o.associativity == LEFT_ASSOC), "the level is that of the operator before it");
#endif
    if (!r) { VF_ASSERT(Y->__pos == pos && Y->__thunkpos == nth, "nothing is taken without a match"); VF_REACH("no match"); }
    else { VF_ASSERT(Y->__pos > pos, "what the operand took is taken"); VF_REACH("match"); }
}

/* the operator table and the precedence stack: which operator may continue an
   operand of which (PREC_PUSH, PREC_PUSH_TOP, PREC_CHK, PREC_POP as in the grammar) */
#include "vfparser.h"
static void vf_at_abort(void) { }
#include VF_SRC
#include "operators.c"
enum { UN, LEFT, RIGHT };
/* the documented table: operator, level (higher binds closer), grouping, text */
#define TABLE \
 T(OR,1,LEFT,"OR") T(XOR,2,LEFT,"XOR") T(AND,3,LEFT,"AND") T(NOT,4,UN,"NOT") \
 T(EQUAL,5,LEFT,"=") T(NEQUAL,5,LEFT,"<>") T(LT,6,LEFT,"<") T(GT,6,LEFT,">") T(LTE,6,LEFT,"<=") T(GTE,6,LEFT,">=") \
 T(PLUS,7,LEFT,"+") T(MINUS,7,LEFT,"-") T(MULT,8,LEFT,"*") T(DIV,8,LEFT,"/") T(MOD,8,LEFT,"%") T(POW,9,RIGHT,"^") \
 T(UNARY_PLUS,10,UN,"+") T(UNARY_MINUS,10,UN,"-") T(REGEX,11,LEFT,"=~") T(IN,11,LEFT,"IN") \
 T(STARTS_WITH,11,LEFT,"STARTS WITH") T(ENDS_WITH,11,LEFT,"ENDS WITH") T(CONTAINS,11,LEFT,"CONTAINS") \
 T(IS_NULL,11,UN,"IS NULL") T(IS_NOT_NULL,11,UN,"IS NOT NULL") T(MAP_PROJECTION,12,LEFT,"{") T(SUBSCRIPT,12,LEFT,"[") \
 T(PROPERTY,13,LEFT,".") T(LABEL,13,LEFT,":")
enum { 
#define T(n, l, a, s) N_##n,
TABLE NOPS
#undef T
};
static const int level[] = {
#define T(n, l, a, s) l,
TABLE
#undef T
};
static const int group[] = {
#define T(n, l, a, s) a,
TABLE
#undef T
};
static yycontext *Y; static unsigned st[4]; static unsigned pushed; static _Bool fails;
/* contract of cp_vector_push (C16): the element is added at the end */
int cp_vector_push(struct cp_vector *v, void *e)
{
    __CPROVER_assert(v == &(Y->precedences.vec), "PROP pushed to the precedences");
    if (fails) { vf_alloc_failed = 1; errno = ENOMEM; return -1; }
    __CPROVER_assert(v->length < 4, "PROP one at a time");
    st[v->length++] = *(unsigned *)e; pushed++;
    return 0;
}
static const cypher_operator_t *op_of(int i)
{
    switch (i) {
#define T(n, l, a, s) case N_##n: return CYPHER_OP_##n;
TABLE
#undef T
    }
    return NULL;
}
static const char *text_of(int i)
{
    switch (i) {
#define T(n, l, a, s) case N_##n: return s;
TABLE
#undef T
    }
    return NULL;
}
void harness(void)
{
    Y = __CPROVER_allocate(sizeof(*Y), 1);
    yycontext *yy = Y;
    Y->precedences.vec.element_size = sizeof(unsigned); Y->precedences.vec.elements = (char *)st; Y->precedences.vec.capacity = 4; Y->precedences.vec.length = 0;
    int a = vf_int(), b = vf_int(); VF_ASSUME(0 <= a && a < NOPS && 0 <= b && b < NOPS);
    st[0] = vf_uint(); Y->precedences.vec.length = 1; unsigned s0 = st[0];
    pushed = 0; fails = vf_bool();
    if (vf_bool())
    {
        Y->op = op_of(a); int ok = PREC_PUSH();
        VF_ASSERT(!fails && ok == 1 && pushed == 1 && Y->precedences.vec.length == 2, "an operand opens one level");
        Y->op = op_of(b);
        VF_ASSERT((PREC_CHK() != 0) == (group[a] == LEFT ? level[b] > level[a] : level[b] >= level[a]),
                  "an operand goes on with the operators that bind closer, or as close and to the right");
        VF_REACH("operand");
    }
    else
    {
        int ok = PREC_PUSH_TOP();
        VF_ASSERT(!fails && ok == 1 && pushed == 1 && Y->precedences.vec.length == 2, "an expression opens one level");
        Y->op = op_of(b);
        VF_ASSERT(PREC_CHK() != 0, "an expression goes on with every operator");
        VF_REACH("top");
    }
    VF_ASSERT(PREC_POP() == 1 && Y->precedences.vec.length == 1 && st[0] == s0, "closing a level restores the one before");
    VF_ASSERT(a == b || op_of(a) != op_of(b), "operators are distinct");
    const char *s = op_of(a)->str, *t = text_of(a);
    int i = vf_int(); VF_ASSUME(0 <= i && i < 12);
    _Bool in = 1; for (int k = 0; k < 12; k++) { if (k < i && t[k] == 0) { in = 0; break; } }
    if (in) { VF_ASSERT(s[i] == t[i], "the text of an operator is the documented one"); }
}

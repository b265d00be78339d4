/* the operator rules: the operator matched is the one tested for precedence and
   the one its deferred action pushes */
#include "vfparser.h"
static void vf_at_abort(void) { }
#include VF_SRC
#include "operators.c"
static yycontext *Y; static const cypher_operator_t *want, *pushed; static int pos, nacts; static yyaction act; static unsigned npush, nthunk;
static int tok(const cypher_operator_t *o)
{
    __CPROVER_assert(want == NULL && Y->__pos == pos && Y->__thunkpos == (int)nthunk, "PROP alternatives are tried at the same place");
    if (!vf_bool()) { return 0; }
    int d = vf_int(); VF_ASSUME(d >= 1 && d <= 16);
    Y->__pos += d; want = o; return 1;
}
#if VF_WHAT == 1
#define RULE yy_PREFIX_OP
#define TOKENS T(NOT, NOT) T(PLUS, UNARY_PLUS) T(MINUS, UNARY_MINUS)
#elif VF_WHAT == 2
#define RULE yy_POSTFIX_OP
#define TOKENS T(IS_NULL, IS_NULL) T(IS_NOT_NULL, IS_NOT_NULL)
#elif VF_WHAT == 3
#define RULE yy_INFIX_OP
#define TOKENS T(AND, AND) T(OR, OR) T(XOR, XOR) T(NOT, NOT) T(REGEX, REGEX) T(EQUAL, EQUAL) T(NEQUAL, NEQUAL) T(PLUS, PLUS) T(MINUS, MINUS) \
    T(MULT, MULT) T(DIV, DIV) T(MOD, MOD) T(POW, POW) T(IN, IN) T(CONTAINS, CONTAINS) T(STARTS_WITH, STARTS_WITH) T(ENDS_WITH, ENDS_WITH)
#else
#define RULE yy_COMPARISON_OP
#define TOKENS T(LTE, LTE) T(GTE, GTE) T(LT, LT) T(GT, GT)
#endif
#define T(t, o) YY_RULE(int) yy_##t(yycontext *yy) { return tok(CYPHER_OP_##o); }
TOKENS
#undef T
static _Bool wsok, wsat;
YY_RULE(int) yy__(yycontext *yy)
{
    __CPROVER_assert(want != NULL && Y->op == want, "PROP the operator matched is the one tested");
    wsat = 1; wsok = vf_bool(); return wsok;      /* the rule for white space always matches; either way is shown */
}
void vf_do(yycontext *yy, yyaction a) { nacts++; act = a; yy->__thunkpos++; }
/* contract of cp_vector_push (C16) */
int cp_vector_push(struct cp_vector *v, void *e)
{
    __CPROVER_assert(v == &(Y->operators.vec), "PROP pushed to the operators");
    npush++; pushed = *(const cypher_operator_t **)e;
    return 0;
}
void harness(void)
{
    Y = __CPROVER_allocate(sizeof(*Y), 1);
    pos = vf_int(); VF_ASSUME(pos >= 0 && pos <= (1 << 29)); nthunk = vf_count(); Y->__pos = pos; Y->__thunkpos = nthunk; want = NULL; nacts = 0; wsat = 0; npush = 0; Y->op = NULL;
    int r = RULE(Y);
    if (r)
    {
        VF_ASSERT(wsat && wsok && want != NULL && Y->op == want, "the operator matched is the one tested");
        VF_ASSERT(nacts == 1 && Y->__thunkpos == (int)nthunk + 1 && Y->__pos > pos, "one action is deferred");
        act(Y, NULL, 0);
        VF_ASSERT(npush == 1 && pushed == want, "the action pushes the operator matched");
        VF_REACH("matched");
    }
    else
    {
        VF_ASSERT(Y->__pos == pos && Y->__thunkpos == (int)nthunk, "nothing is taken without a match");
        VF_ASSERT(want == NULL || (wsat && !wsok), "a token is not overlooked");
        VF_REACH("no match");
    }
}

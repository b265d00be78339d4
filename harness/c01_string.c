/* yymatchString: takes the whole literal or nothing */
#include "vfparser.h"
static struct _yycontext *Y; static int pos0; static _Bool ended; static size_t asked;
static const char *lit; static size_t litlen;
static void vf_at_abort(void) {}
#include VF_SRC
static char in[VF_MAXLIT + 1]; static size_t inlen;
int vf_refill(struct _yycontext *yy)
{
    __CPROVER_assert(yy == Y && yy->__pos >= yy->__limit, "PROP refilled only when everything was taken");
    asked = (size_t)(yy->__limit - pos0);
    if (asked >= inlen) { ended = 1; return 0; }
    yy->__limit += 1;
    return 1;
}
void harness(void)
{
    Y = __CPROVER_allocate(sizeof(*Y), 1);
    char l[VF_MAXLIT + 1];
    litlen = vf_size(); VF_ASSUME(litlen <= VF_MAXLIT); l[litlen] = 0;
    size_t j = vf_size(); VF_ASSUME(j >= litlen || l[j] != 0);
    inlen = vf_size(); VF_ASSUME(inlen <= VF_MAXLIT);
    pos0 = vf_int(); VF_ASSUME(pos0 >= 0 && pos0 <= (1 << 29));
    int have = vf_int(); VF_ASSUME(have >= 0 && (size_t)have <= inlen);
    Y->__pos = pos0; Y->__limit = pos0 + have;
    char *b = __CPROVER_allocate((size_t)pos0 + inlen, 0);
    for (unsigned i = 0; i < VF_MAXLIT; i++) { VF_ASSUME(i >= litlen || l[i] != 0); if (i < inlen) { in[i] = b[(size_t)pos0 + i]; } }
    Y->__buf = b;
    int r = yymatchString(Y, l);
    _Bool expect = litlen <= inlen;
    for (unsigned i = 0; i < VF_MAXLIT; i++) { if (i < litlen && i < inlen && in[i] != l[i]) { expect = 0; } }
    VF_ASSERT(!!r == expect, "matches exactly if the literal comes next");
    VF_ASSERT(r ? Y->__pos == pos0 + (int)litlen : (Y->__pos >= pos0 && Y->__pos <= Y->__limit), "the whole literal is taken; a rule that fails restores the place itself");
    VF_REACH("end");
}

/* yymatchDot, yymatchChar, yymatchClass: one byte each, only if there is one */
#include "vfparser.h"
static struct _yycontext *Y; static unsigned refills; static int pos0; static unsigned char want;
static _Bool more; 
static void vf_at_abort(void) {}
#include VF_SRC
/* contract of yyrefill (unit refill): requires pos == limit */
int vf_refill(struct _yycontext *yy)
{
    __CPROVER_assert(yy == Y && yy->__pos >= yy->__limit, "PROP refilled only when everything was taken");
    refills++;
    if (!more) { return 0; }
    int n = vf_int(); VF_ASSUME(n >= 1 && n <= (1 << 20));
    char *nb = __CPROVER_allocate((size_t)yy->__limit + (size_t)n, 0);
    nb[pos0] = (char)want;
    yy->__buf = nb; yy->__limit += n;
    return 1;
}
void harness(void)
{
    Y = __CPROVER_allocate(sizeof(*Y), 1);
    int limit = vf_int(); pos0 = vf_int();
    VF_ASSUME(limit >= 0 && limit <= (1 << 29) && pos0 >= 0 && pos0 <= limit);
    Y->__pos = pos0; Y->__limit = limit;
    Y->__buf = __CPROVER_allocate((size_t)limit, 0);   /* exactly what was read */
    want = (unsigned char)vf_char(); more = vf_bool();
    if (pos0 < limit) { Y->__buf[pos0] = (char)want; }
    _Bool avail = pos0 < limit || more;
    int which = vf_int(), r, expect;
    if (which == 0) { r = yymatchDot(Y); expect = avail; VF_REACH("dot"); }
    else if (which == 1) { int c = vf_int(); VF_ASSUME(c >= 0 && c <= 255); r = yymatchChar(Y, c); expect = avail && want == c; VF_REACH("char"); }
    else { unsigned char *bits = __CPROVER_allocate(32, 0); r = yymatchClass(Y, bits); expect = avail && ((bits[want / 8] >> (want % 8)) & 1); VF_REACH("class"); }
    VF_ASSERT(!!r == !!expect, "matches exactly if the next byte is one of those wanted");
    VF_ASSERT(Y->__pos == pos0 + (r ? 1 : 0), "exactly one byte is taken, or none");
    VF_ASSERT(refills == (pos0 >= limit), "more input is asked for only at the end of what was read");
}

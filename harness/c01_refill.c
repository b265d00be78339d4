/* yyrefill: bytes taken are appended, none is lost or moved, the space offered is real */
#include "vfparser.h"
static struct _yycontext *Y; static int vf_n; static unsigned calls; static char wk, *filled;
static int given_max;
static void vf_source_contract(struct _yycontext *yy, char *buf, int *result, int max);
static void vf_at_abort(void) {}
#include VF_SRC
static void vf_source_contract(struct _yycontext *yy, char *buf, int *result, int max)
{
    __CPROVER_assert(yy == Y && buf == yy->__buf + yy->__pos, "PROP new bytes go right after those taken");
    __CPROVER_assert(max >= 1 && max == yy->__buflen - yy->__pos && __CPROVER_w_ok(buf, (size_t)max), "PROP the space offered is there");
    calls++; filled = buf; given_max = max;
    vf_n = vf_int(); VF_ASSUME(vf_n >= 0 && vf_n <= max);
    *result = vf_n;
}
void harness(void)
{
    K = vf_size(); vf_w = 1;
    Y = __CPROVER_allocate(sizeof(*Y), 1);
    int buflen = vf_int(), pos = vf_int(), limit;
    VF_ASSUME(buflen >= 1024 && buflen <= (1 << 29) && pos >= 0 && pos <= buflen);
    limit = pos;                 /* precondition: everything read has been taken */
    Y->__buflen = buflen; Y->__pos = pos; Y->__limit = limit;
    Y->__buf = __CPROVER_allocate((size_t)buflen, 0);
    vf_old_size = (size_t)buflen;
    wk = K < (size_t)limit ? Y->__buf[K] : 0;
    int r = yyrefill(Y);
    VF_ASSERT(calls == 1, "the source is asked once");
    VF_ASSERT(r == (vf_n != 0), "success exactly if there are more bytes");
    VF_ASSERT(Y->__pos == pos && Y->__limit == limit + vf_n, "the bytes added are counted");
    VF_ASSERT(Y->__limit <= Y->__buflen && __CPROVER_r_ok(Y->__buf, (size_t)Y->__buflen), "capacity backed by memory");
    VF_ASSERT(filled == Y->__buf + limit, "new bytes follow the old ones");
    if (K < (size_t)limit) { VF_ASSERT(Y->__buf[K] == wk, "bytes already read stay"); VF_REACH("kept"); }
}

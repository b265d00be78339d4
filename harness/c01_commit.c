/* yyCommit: the bytes not taken move to the front, the others go */
#include "vfparser.h"
static void vf_at_abort(void) {}
#include VF_SRC
void harness(void)
{
    K = vf_size(); vf_w = 1;
    struct _yycontext *yy = __CPROVER_allocate(sizeof(*yy), 1);
    int len = vf_int(), pos = vf_int(), limit = vf_int();
    VF_ASSUME(len >= 1024 && limit >= 0 && limit <= len && pos >= 0 && pos <= limit);
    yy->__buflen = len; yy->__pos = pos; yy->__limit = limit; yy->__begin = vf_int(); yy->__end = vf_int();
    VF_ASSUME(yy->__begin >= 0 && yy->__end >= 0);
    yy->__buf = __CPROVER_allocate((size_t)len, 0);
    char *b = yy->__buf;
    char w = K < (size_t)(limit - pos) ? b[(size_t)pos + K] : 0;
    yyCommit(yy);
    VF_ASSERT(yy->__pos == 0 && yy->__limit == limit - pos && yy->__buf == b && yy->__buflen == len && yy->__thunkpos == 0, "what was taken is dropped");
    if (K < (size_t)(limit - pos)) { VF_ASSERT(yy->__buf[K] == w, "what was not taken comes next, in order"); VF_REACH("kept"); }
}

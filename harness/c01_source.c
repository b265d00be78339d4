/* source: passes on what the source gives, a failing source ends the parse */
#include "vfparser.h"
static int vf_r; static unsigned calls; static char *the_buf; static void *the_data; static int the_max;
static int vf_source(void *data, char *buf, int n)
{
    __CPROVER_assert(data == the_data && buf == the_buf && n == the_max, "PROP the source is asked to fill the space given");
    calls++;
    if (vf_r < 0) { vf_may_abort = 1; errno = vf_int(); }
    return vf_r;
}
static void vf_at_abort(void) { __CPROVER_assert(calls == 1 && vf_r < 0, "PROP given up only when the source fails"); VF_REACH("abort"); }
#include VF_SRC
void harness(void)
{
    struct _yycontext *yy = __CPROVER_allocate(sizeof(*yy), 1);
    static char b; the_buf = vf_bool() ? &b : NULL; the_data = vf_ptr(); the_max = vf_int();
    yy->source = vf_source; yy->source_data = the_data;
    vf_r = vf_int(); VF_ASSUME(vf_r <= the_max);
    int res = vf_int();
    source(yy, the_buf, &res, the_max);
    VF_ASSERT(calls == (the_buf != NULL), "the source is asked once");
    VF_ASSERT(res == (the_buf != NULL ? vf_r : 0) && res >= 0, "what the source gives is passed on");
    VF_REACH("passed");
}

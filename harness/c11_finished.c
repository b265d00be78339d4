/* finished: every error of the segment gets the context of its own place */
#include "vfparser.h"
static struct _yycontext *Y; static unsigned KE, n; static _Bool fails; static const size_t MAGIC = 0x5a5a5a5aUL;
static size_t base; static char ctx_;
static void vf_at_abort(void) { __CPROVER_assert(fails, "PROP given up only when out of memory"); }
#include "../../config.h"
#include "cypher-parser.h"
#include "errors.h"
static cypher_parse_error_t *vf_errs; static unsigned vf_m, KC; static cypher_parse_error_t wE;
/* instance of the precondition: errors before m have their context, those from m on have none */
#define GHOST(i) __CPROVER_assume((vf_errs[i].context == NULL) == ((i) >= vf_m));
#include VF_SRC
/* contract of line_context (unit line-context) */
char *line_context(const char *buf, size_t bufsize, size_t *offset, size_t max_length)
{
    __CPROVER_assert(buf == Y->__buf && bufsize == (size_t)Y->__limit && max_length == 80, "PROP the context is taken from what was read, at most eighty bytes");
    if (vf_bool()) { fails = 1; vf_alloc_failed = 1; return NULL; }
    *offset ^= MAGIC;
    return &ctx_;
}
void harness(void)
{
    Y = __CPROVER_allocate(sizeof(*Y), 1);
    n = vf_count(); KE = vf_uint();
    vf_m = vf_uint(); VF_ASSUME(vf_m <= n);
    KC = KE < n ? KE : 0;
    vf_errs = __CPROVER_allocate(((size_t)n + 1) * sizeof(cypher_parse_error_t), 0);
    Y->error_tracking.errors = vf_errs; Y->error_tracking.nerrors = n; Y->error_tracking.errors_capacity = n + 1;
    base = vf_size(); Y->position_offset.offset = base;
    Y->__pos = vf_int(); VF_ASSUME(Y->__pos >= 0); Y->__limit = vf_int(); VF_ASSUME(Y->__limit >= 0);
    VF_ASSUME((vf_errs[KC].context == NULL) == (KC >= vf_m));
    wE = vf_errs[KC];
    errno = ENOMEM;
    finished(Y);
    VF_ASSERT(Y->consumed == (unsigned)Y->__pos, "what was taken is the segment");
    VF_ASSERT(Y->error_tracking.nerrors == n && Y->error_tracking.errors == vf_errs, "errors kept");
    if (KE < n)
    {
        cypher_parse_error_t *e = vf_errs + KE;
        VF_ASSERT(e->msg == wE.msg && e->position.offset == wE.position.offset && e->position.line == wE.position.line && e->position.column == wE.position.column, "errors keep message and place");
        if (KE >= vf_m)
        {
            VF_ASSERT(e->context == &ctx_ && e->context_offset == ((wE.position.offset - base) ^ MAGIC), "each error gets the context of its own place");
            VF_REACH("context");
        }
        else { VF_ASSERT(e->context == wE.context && e->context_offset == wE.context_offset, "a context given before is kept"); VF_REACH("kept"); }
    }
}

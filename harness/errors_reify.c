/* cp_et_reify_potentials, extract and cleanup of the real errors.c */
#include "vf.h"
#include <stdarg.h>
#include "errors.h"
static unsigned K, old_n;
static char *wmsg, *wctx;                /* message and context of error K */
static char msg_;
static unsigned reports;
static _Bool failed;
typedef struct cypher_parse_error perr;
static cp_error_tracking_t *the_et;
/* contract of error_report: the message of the labels noted, or NULL */
char *vf_report(cp_error_tracking_t *et)
{
    __CPROVER_assert(et == the_et && et->nlabels > 0, "PROP message made of the labels noted");
    reports++;
    if (vf_bool()) { failed = 1; errno = ENOMEM; return NULL; }
    return &msg_;
}
void *vf_realloc(void *p, size_t n)
{
    if (vf_bool()) { failed = 1; errno = ENOMEM; return NULL; }
    size_t w = n / sizeof(perr);
    perr *q = __CPROVER_allocate(w * sizeof(perr), 0);
    if (K < old_n && K < w) { q[K] = ((perr *)p)[K]; }
    free(p);
    return q;
}
#define realloc vf_realloc
#include "errors.c"
#undef realloc
void harness(void)
{
    struct cp_error_tracking et;
    struct cypher_parser_colorization col;
    static char c0; static const char none = 0;
    col.error[0] = col.error[1] = col.error_token[0] = col.error_token[1] = col.error_message[0] = col.error_message[1] = &none;
    et.colorization = &col; the_et = &et;
    K = vf_uint();
    unsigned n = vf_count(), cap = vf_count();
    VF_ASSUME(n <= cap);
    perr *e = malloc(cap * sizeof(perr));
    VF_ASSUME(e != NULL);
    if (cap == 0 && vf_bool()) { free(e); e = NULL; }
    et.errors = e; et.nerrors = n; et.errors_capacity = cap; old_n = n;
    static char m, x; size_t off = vf_size(); struct cypher_input_position wp;
    if (K < n) { e[K].msg = &m; e[K].context = &x; e[K].context_offset = off; e[K].position = wp; }
    struct cp_error_tracking old = et;
    reports = 0; failed = 0;
    int r = cp_et_reify_potentials(&et);
    VF_ASSERT(et.labels == old.labels && et.labels_capacity == old.labels_capacity && et.colorization == &col, "label storage kept");
    if (K < n) { VF_ASSERT(et.errors[K].msg == &m && et.errors[K].context == &x && et.errors[K].context_offset == off &&
        et.errors[K].position.line == wp.line && et.errors[K].position.column == wp.column && et.errors[K].position.offset == wp.offset, "earlier errors are kept"); }
    VF_ASSERT(et.nerrors <= et.errors_capacity && (et.errors_capacity == 0 || __CPROVER_r_ok(et.errors, et.errors_capacity * sizeof(perr))), "capacity backed by memory");
    if (old.nlabels == 0)
    {
        VF_ASSERT(r == 0 && et.nerrors == n && reports == 0, "nothing expected, nothing reported");
        return;
    }
    if (r != 0)
    {
        VF_ASSERT(r == -1 && failed && et.nerrors == n && et.nlabels == old.nlabels, "failure changes nothing");
        return;
    }
    VF_ASSERT(!failed && et.nerrors == n + 1 && reports == 1, "exactly one error is added");
    VF_ASSERT(et.errors[n].msg == &msg_ && et.errors[n].context == NULL, "the error has its message");
    VF_ASSERT(et.errors[n].position.offset == old.last_position.offset && et.errors[n].position.line == old.last_position.line &&
        et.errors[n].position.column == old.last_position.column, "the error lies at the furthest place noted");
    VF_ASSERT(et.last_error_offset == old.last_position.offset, "the place of the last error is noted");
    VF_ASSERT(et.nlabels == 0 && et.last_position.offset == 0, "expectations are forgotten once reported");
    VF_REACH("reified");
}

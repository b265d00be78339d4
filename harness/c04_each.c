/* parse() of the quick parser: segments one after the other until the end, an
   answer of the callback or a failure */
#include "vfparser.h"
#undef errno
static int vf_errno;
#define errno vf_errno
#undef sigsetjmp
static int vf_setjmp(void);
#define sigsetjmp(env, m) vf_setjmp()
static void vf_at_abort(void) { }
static unsigned cleaned, freed_yy, segs; static int g_err, cbr; static _Bool oom, stopped, single, jumped_, stmts, done, unmatched;
static void *g_source, *g_srcdata, *g_cb, *g_ud;
int vf_yyparsefrom(void *yy, void *rule); void vf_yyrelease(void *y);
#include "../../config.h"
#include "cypher-parser.h"
struct cypher_input_position at_;
#define EQP(a, b) ((a).offset == (b).offset && (a).line == (b).line && (a).column == (b).column)
#include VF_SRC
static int vf_fail(void) { oom = 1; g_err = vf_int(); VF_ASSUME(g_err != 0); errno = g_err; return -1; }
static int vf_setjmp(void)
{
    if (!vf_bool()) { return 0; }
    vf_fail(); errno = vf_int();       /* given up by siglongjmp(abort_env, g_err), which never passes 0 */
    return g_err;
}
void cp_vector_init(struct cp_vector *v, size_t s) { v->element_size = s; v->elements = NULL; v->capacity = 0; v->length = 0; }
void cp_vector_cleanup(struct cp_vector *v) { cleaned++; }
int cp_vector_push(struct cp_vector *v, void *e)
{
    __CPROVER_assert(v->length == 0 && *(unsigned *)e == 0, "PROP a segment begins one line, at its start");
    if (vf_bool()) { return vf_fail(); }
    v->length++;
    return 0;
}
/* contract of a rule: it matches and its action delivers one segment (unit segment),
   or, at the end of the input, none; or it matches nothing */
int vf_yyparsefrom(void *y, void *rule)
{
    yycontext *yy = y;
    __CPROVER_assert(!stopped && !oom, "PROP parsing goes on only after the segment before was accepted");
    __CPROVER_assert(rule == (stmts ? (void *)yy_statement : (void *)yy_directive), "PROP statements only, or commands as well, as asked for");
    __CPROVER_assert(yy->line_start_offsets.vec.length == 1, "PROP a segment begins with one line");
    __CPROVER_assert(EQP(yy->position_offset, at_), "PROP a segment is counted from where the one before ended");
    __CPROVER_assert((void *)yy->source == g_source && yy->source_data == g_srcdata && (void *)yy->callback == g_cb && yy->callback_data == g_ud, "PROP the input and the callback asked for");
    __CPROVER_assert(!yy->eof, "PROP nothing is parsed after the end of the input");
    errno = vf_int(); if (vf_bool()) { unmatched = 1; stopped = 1; return 0; }
    struct cypher_input_position e; yy->position_offset = at_ = e; yy->eof = done = vf_bool(); yy->line_start_offsets.vec.length = vf_uint();
    yy->result = cbr = vf_int(); segs = 1; stopped = done || cbr != 0 || single;
    return 1;
}
void vf_yyrelease(void *y) { freed_yy++; }
static int src(void *d, char *b, int n) { return 0; }
static int cbf(void *d, const cypher_quick_parse_segment_t *s) { return 0; }
void harness(void)
{
    static char sd, ud; uint_fast32_t flags = vf_uint();
    single = (flags & CYPHER_PARSE_SINGLE) != 0; stmts = (flags & CYPHER_PARSE_ONLY_STATEMENTS) != 0;
    cleaned = freed_yy = segs = 0; oom = stopped = done = unmatched = 0; cbr = 0;
    at_ = cypher_input_position_zero;
    g_source = (void *)src; g_srcdata = &sd; g_cb = (void *)cbf; g_ud = &ud;
    int r = parse(src, &sd, cbf, &ud, flags);
    VF_ASSERT(cleaned == 1 && freed_yy == 1, "everything is released once");
    VF_ASSERT(!oom || (r == -1 && errno == g_err), "a failure is reported with its reason");
    VF_ASSERT(oom || stopped, "parsing ends at the end of input, after one segment if asked, or when the callback says so");
    VF_ASSERT(oom || unmatched || r == (cbr < 0 ? cbr : 0), "the result is that of the callback, 0 when all was parsed");
    if (oom) { VF_REACH("failure"); }
    else if (unmatched) { VF_ASSERT(r == -1, "no match is a failure"); }
    else if (cbr < 0) { VF_REACH("callback failed"); }
    else if (cbr > 0) { VF_REACH("callback stopped"); }
    else if (done) { VF_REACH("last"); }
    else { VF_ASSERT(single, "one only if asked"); VF_REACH("single"); }
}
